package checks

import (
	"bytes"
	"fmt"
	"strings"

	"verifmc/h"
)

func init() {
	reg("P10", "model_checking",
		"every sequence up to the depth of reads, writes with and without immediate data, Data-Outs, tests, pings, text and task management requests, refused commands, immediate requests, requests outside the command window, PDUs of unsupported types and logout on one connection, delivered PDU by PDU, all at once, and cut at every byte; oracle: exactly the answers each request is due, in order, with its task tag, and no others; a state is (outstanding tasks, last answers)",
		p10)
	reg("P11", "model_checking",
		"every sequence up to the depth of the same requests x initial CmdSN and ExpStatSN at zero, in the middle and around the 31- and 32-bit wraps x map orders and negotiated lengths; a full window of outstanding writes; oracle: StatSN counts answers, ExpCmdSN counts accepted non-immediate requests, what the advertised window admits is served and what is outside is ignored; a state is (CmdSN, StatSN distance, outstanding)",
		p11)
}

// seqWorld drives one connection and knows what it is owed.
type seqWorld struct {
	k        *Case
	w        *h.World
	i        *h.Ini
	model    []byte // medium of LUN 0
	exp      uint32 // ExpCmdSN the target must show
	stat     uint32 // next StatSN
	win      uint32 // window size the target shows
	pend     []*wtask
	due      []due // answers owed, in order
	hist     []string
	loggedIn bool
	closed   bool
	n        int
	failed   bool
}

// due is one owed answer.
type due struct {
	what   string
	op     byte
	itt    uint32
	counts bool // consumes a StatSN
	exp    uint32
	check  func(h.PDU) string
}

func (s *seqWorld) fail(key, f string, a ...any) {
	s.failed = true
	s.k.Fail(key, "%s: %s", strings.Join(s.hist, " "), fmt.Sprintf(f, a...))
}

// steps are the requests of the alphabet. Each returns the PDUs to send and registers what is due.
type seqStep struct {
	name  string
	batch bool // can be sent without waiting for what came before
	last  bool
	run   func(*seqWorld) []*h.PDU
}

func (s *seqWorld) owe(what string, op byte, itt uint32, counts bool, check func(h.PDU) string) {
	s.due = append(s.due, due{what, op, itt, counts, s.exp, check})
}

func status(want byte, key byte) func(h.PDU) string {
	return func(p h.PDU) string {
		if p.B[2] != 0 || p.B[3] != want || p.B[1]&0x80 == 0 {
			return fmt.Sprintf("want status %02x", want)
		}
		if want == 2 && (len(p.Data) < 16 || p.Data[4]&0xf != key) {
			return fmt.Sprintf("want sense key %x, data %x", key, p.Data)
		}
		if want == 0 && len(p.Data) != 0 {
			return "data in a response"
		}
		return ""
	}
}

func (s *seqWorld) immediate(p *h.PDU) *h.PDU {
	p.B[0] |= 0x40
	return p
}

// accept accounts a non-immediate request.
func (s *seqWorld) accept() { s.exp++ }

func seqSteps() []seqStep {
	tur := func(s *seqWorld, imm bool) *h.PDU {
		p := s.i.CmdPDU(0, h.TUR(), 0, false, false)
		if imm {
			s.i.CmdSN--
			s.immediate(p)
		} else {
			s.accept()
		}
		s.owe("TUR", h.OpResp, p.ITT(), true, status(0, 0))
		return p
	}
	control := func(s *seqWorld, op, b1 byte, imm bool) *h.PDU {
		p := &h.PDU{}
		p.B[0], p.B[1] = op, b1
		p.Put32(16, s.i.ITT())
		p.Put32(20, 0xffffffff)
		p.Put32(24, s.i.CmdSN)
		p.Put32(28, s.i.ExpStat)
		if imm {
			s.immediate(p)
		} else {
			s.i.CmdSN++
			s.accept()
		}
		return p
	}
	one := func(p *h.PDU) []*h.PDU { return []*h.PDU{p} }
	write := func(s *seqWorld, imm int, immediate bool) *h.PDU {
		s.n++
		t := &wtask{i: s.i, lba: uint64(s.n % 4), data: h.Fill(1024, byte(s.n)), imm: imm}
		p := t.next()
		if immediate {
			s.i.CmdSN--
			s.immediate(p)
		} else {
			s.accept()
		}
		if imm == 1024 {
			s.owe("WRITE", h.OpResp, p.ITT(), true, status(0, 0))
			copy(s.model[t.lba*512:], t.data)
			return p
		}
		s.pend = append(s.pend, t)
		s.owe("R2T", h.OpR2T, p.ITT(), false, func(q h.PDU) string {
			t.r2t = &q
			if int(q.Offset()) != imm || int(q.Desired()) != 1024-imm {
				return q.String()
			}
			return ""
		})
		return p
	}
	finish := func(s *seqWorld, at int) *h.PDU {
		t := s.pend[at]
		p := t.next()
		s.pend = append(append([]*wtask{}, s.pend[:at]...), s.pend[at+1:]...)
		copy(s.model[t.lba*512:], t.data)
		s.owe("WRITE", h.OpResp, p.ITT(), true, status(0, 0))
		return p
	}
	tmf := func(s *seqWorld, fn byte, ref uint32, want byte) *h.PDU {
		p := control(s, h.OpTMF, 0x80|fn, true)
		p.Put32(20, ref)
		s.owe("TMF", h.OpTMFResp, p.ITT(), true, func(q h.PDU) string {
			if q.B[2] != want {
				return fmt.Sprintf("task management response %d, want %d", q.B[2], want)
			}
			return ""
		})
		return p
	}
	return []seqStep{
		{name: "tur", batch: true, run: func(s *seqWorld) []*h.PDU { return one(tur(s, false)) }},
		{name: "tur!", batch: true, run: func(s *seqWorld) []*h.PDU { return one(tur(s, true)) }},
		{name: "read", batch: true, run: func(s *seqWorld) []*h.PDU {
			p := s.i.CmdPDU(0, h.C10(0x28, 0, 1, 2), 1024, true, false)
			s.accept()
			want := append([]byte{}, s.model[512:1536]...)
			s.owe("READ", h.OpDataIn, p.ITT(), true, func(q h.PDU) string {
				if q.B[1] != 0x81 || q.B[3] != 0 || !bytes.Equal(q.Data, want) {
					return "wrong data or flags"
				}
				return ""
			})
			return one(p)
		}},
		{name: "readbad", batch: true, run: func(s *seqWorld) []*h.PDU {
			p := s.i.CmdPDU(0, h.C10(0x28, 0, 99, 2), 1024, true, false)
			s.accept()
			s.owe("READ beyond the end", h.OpResp, p.ITT(), true, status(2, 5))
			return one(p)
		}},
		{name: "nolun", batch: true, run: func(s *seqWorld) []*h.PDU {
			p := s.i.CmdPDU(7, h.C10(0x28, 0, 0, 1), 512, true, false)
			s.accept()
			s.owe("READ of no unit", h.OpResp, p.ITT(), true, status(2, 5))
			return one(p)
		}},
		{name: "bidi", batch: true, run: func(s *seqWorld) []*h.PDU {
			p := s.i.CmdPDU(0, h.C10(0x28, 0, 0, 1), 512, true, true)
			s.accept()
			s.owe("bidirectional", h.OpResp, p.ITT(), true, status(2, 5))
			return one(p)
		}},
		{name: "write", batch: true, run: func(s *seqWorld) []*h.PDU { return one(write(s, 1024, false)) }},
		{name: "write!", batch: true, run: func(s *seqWorld) []*h.PDU { return one(write(s, 1024, true)) }},
		{name: "wpend", batch: true, run: func(s *seqWorld) []*h.PDU { return one(write(s, 0, false)) }},
		{name: "wpend!", batch: true, run: func(s *seqWorld) []*h.PDU { return one(write(s, 512, true)) }},
		{name: "dout0", run: func(s *seqWorld) []*h.PDU {
			if len(s.pend) == 0 {
				return nil
			}
			return one(finish(s, 0))
		}},
		{name: "doutN", run: func(s *seqWorld) []*h.PDU {
			if len(s.pend) < 2 {
				return nil
			}
			return one(finish(s, len(s.pend)-1))
		}},
		{name: "stray", batch: true, run: func(s *seqWorld) []*h.PDU { // a Data-Out of no task
			return one(s.i.DataOut(0, 0x7000, 0, 0, 0, make([]byte, 512), true))
		}},
		{name: "nop", batch: true, run: func(s *seqWorld) []*h.PDU {
			p := control(s, h.OpNopOut, 0x80, false)
			p.Data = []byte("ping-" + fmt.Sprint(p.ITT()))
			d := p.Data
			s.owe("NOP-In", h.OpNopIn, p.ITT(), true, func(q h.PDU) string {
				if !bytes.Equal(q.Data, d) {
					return fmt.Sprintf("ping data %q", q.Data)
				}
				return ""
			})
			return one(p)
		}},
		{name: "nop!", batch: true, run: func(s *seqWorld) []*h.PDU {
			p := control(s, h.OpNopOut, 0x80, true)
			s.owe("NOP-In", h.OpNopIn, p.ITT(), true, func(q h.PDU) string { return "" })
			return one(p)
		}},
		{name: "nop-", batch: true, run: func(s *seqWorld) []*h.PDU { // no answer wanted
			p := control(s, h.OpNopOut, 0x80, true)
			p.Put32(16, 0xffffffff)
			return one(p)
		}},
		{name: "text", batch: true, run: func(s *seqWorld) []*h.PDU {
			p := control(s, h.OpText, 0x80, false)
			p.Data = []byte("SendTargets=\x00")
			s.owe("Text", h.OpTextR, p.ITT(), true, func(q h.PDU) string {
				if _, m := h.ParseKV(q.Data); m["TargetName"] != s.w.Names[0] || q.B[1]&0x80 == 0 {
					return fmt.Sprintf("%q", q.Data)
				}
				return ""
			})
			return one(p)
		}},
		{name: "snack", batch: true, run: func(s *seqWorld) []*h.PDU {
			p := &h.PDU{}
			p.B[0], p.B[1] = h.OpSNACK, 0x80
			p.Put32(16, 0xffffffff)
			p.Put32(28, s.i.ExpStat)
			hdr := append([]byte{}, p.Bytes()[:48]...)
			s.owe("Reject", h.OpReject, 0xffffffff, true, func(q h.PDU) string {
				if len(q.Data) < 48 || !bytes.Equal(q.Data[:48], hdr) {
					return fmt.Sprintf("rejected header %x", q.Data)
				}
				if q.B[2] < 2 || q.B[2] > 0x0c {
					return fmt.Sprintf("reason %02x", q.B[2])
				}
				return ""
			})
			return one(p)
		}},
		{name: "old", batch: true, run: func(s *seqWorld) []*h.PDU { // a duplicate: ignored
			p := s.i.CmdPDU(0, h.C10(0x2a, 0, 0, 1), 512, false, true)
			s.i.CmdSN--
			p.Put32(24, s.i.CmdSN-1)
			p.Data = bytes.Repeat([]byte{0xee}, 512)
			return one(p)
		}},
		{name: "far", batch: true, run: func(s *seqWorld) []*h.PDU { // beyond the window: ignored
			p := s.i.CmdPDU(0, h.C10(0x2a, 0, 0, 1), 512, false, true)
			s.i.CmdSN--
			p.Put32(24, s.i.CmdSN+s.win+1)
			p.Data = bytes.Repeat([]byte{0xdd}, 512)
			return one(p)
		}},
		{name: "stale", batch: true, run: func(s *seqWorld) (l []*h.PDU) { // NOP-Outs before and beyond the window: ignored
			for _, sn := range []uint32{s.i.CmdSN - 1, s.i.CmdSN + s.win + 1} {
				p := control(s, h.OpNopOut, 0x80, false)
				s.i.CmdSN--
				s.exp--
				p.Put32(24, sn)
				l = append(l, p)
			}
			return
		}},
		{name: "abort", run: func(s *seqWorld) []*h.PDU {
			if len(s.pend) == 0 {
				return one(tmf(s, 1, 0x7777, 1))
			}
			t := s.pend[0]
			s.pend = s.pend[1:]
			return one(tmf(s, 1, t.pdu.ITT(), 0))
		}},
		{name: "lureset", run: func(s *seqWorld) []*h.PDU {
			s.pend = nil
			return one(tmf(s, 5, 0xffffffff, 0))
		}},
		{name: "logout", batch: true, last: true, run: func(s *seqWorld) []*h.PDU {
			p := control(s, h.OpLogout, 0x80, false)
			p.Put32(20, 0)
			s.closed = true
			s.owe("Logout", h.OpLogoutR, p.ITT(), true, func(q h.PDU) string {
				if q.B[2] != 0 {
					return fmt.Sprintf("logout response %d", q.B[2])
				}
				return ""
			})
			return one(p)
		}},
	}
}

// collect matches what arrived with what is due.
func (s *seqWorld) collect(numbers bool) {
	for _, p := range s.i.Recv() {
		if len(s.due) == 0 {
			s.fail("extra "+s.hist[len(s.hist)-1], "%s, which nothing asked for", p.String())
			return
		}
		d := s.due[0]
		s.due = s.due[1:]
		if p.Op() != d.op || p.ITT() != d.itt {
			s.fail("answer "+d.what, "%s, want the answer to %s (tag %x)", p.String(), d.what, d.itt)
			return
		}
		if e := d.check(p); e != "" {
			s.fail("answer "+d.what, "%s: %s: %s", d.what, p.String(), e)
			return
		}
		if numbers {
			if p.StatSN() != s.stat {
				s.fail("statsn "+d.what, "%s: StatSN %d, want %d", d.what, p.StatSN(), s.stat)
				return
			}
			if p.ExpCmdSN() != d.exp {
				s.fail("expcmdsn "+d.what, "%s: ExpCmdSN %d, want %d", d.what, p.ExpCmdSN(), d.exp)
				return
			}
			if p.MaxCmdSN()-p.ExpCmdSN() != s.win {
				s.fail("window "+d.what, "%s: MaxCmdSN %d, ExpCmdSN %d, the window was %d", d.what, p.MaxCmdSN(), p.ExpCmdSN(), s.win)
				return
			}
		}
		if d.counts {
			s.stat++
		}
	}
	if len(s.due) > 0 && s.i.Bad == nil {
		s.fail("missing "+s.due[0].what, "no answer to %s", s.due[0].what)
		return
	}
	if s.i.Bad != nil || s.i.EOF != s.closed {
		s.fail("stream", "stream %v, closed %v", s.i.Bad, s.i.EOF)
		return
	}
	if !s.w.Stores["0/0"].Equal(s.model) {
		s.fail("medium", "the medium is not what the completed writes left")
	}
}

// seqStart opens a world and a session with the given first CmdSN and ExpStatSN.
func seqStart(k *Case, order int, cmd, stat uint32, kv ...string) *seqWorld {
	cfg := h.Simple(h.LUN{LUN: 0, Blocks: 6})
	cfg.Order = order
	w := h.NewWorld(cfg)
	i := w.Dial("10.0.0.1:40000", h.Portal)
	if i == nil {
		k.Fail("no-session", "cannot connect")
		return nil
	}
	i.CmdSN, i.ExpStat = cmd, stat
	if !i.Login(0, kv...) {
		k.Fail("no-session", "cannot log in with CmdSN %d, ExpStatSN %d", cmd, stat)
		return nil
	}
	r := i.All[0]
	s := &seqWorld{k: k, w: w, i: i, model: make([]byte, 6*512), exp: cmd, stat: stat + 1}
	if r.StatSN() != stat || r.ExpCmdSN() != cmd {
		s.hist = []string{"login"}
		s.fail("login-numbers", "StatSN %d ExpCmdSN %d after CmdSN %d ExpStatSN %d", r.StatSN(), r.ExpCmdSN(), cmd, stat)
	}
	s.win = 128
	return s
}

// seqRun runs one sequence; batch sends all of it before waiting.
func seqRun(k *Case, s *seqWorld, seq []seqStep, batch, numbers bool) {
	for _, st := range seq {
		ps := st.run(s)
		s.hist = append(s.hist, st.name)
		s.i.Send(ps...)
		k.Op(1)
		if !batch {
			s.collect(numbers)
			if s.failed {
				return
			}
		}
	}
	if batch {
		s.collect(numbers)
	}
	if !s.failed {
		k.State(fmt.Sprint(s.hist[len(s.hist)-1], len(s.pend), hash(string(s.model))))
		k.crashes(s.w, "crash")
	}
}

// seqAll calls f with every sequence of steps of length n that starts with first.
func seqAll(steps []seqStep, first, n int, ok func(seqStep) bool, f func([]seqStep) bool) {
	var rec func(seq []seqStep) bool
	rec = func(seq []seqStep) bool {
		if len(seq) == n || seq[len(seq)-1].last {
			return f(seq)
		}
		for _, st := range steps {
			if ok(st) && !rec(append(append([]seqStep{}, seq...), st)) {
				return false
			}
		}
		return true
	}
	rec([]seqStep{steps[first]})
}

func p10(c *Ctx) {
	steps := seqSteps()
	any := func(seqStep) bool { return true }
	batch := func(s seqStep) bool { return s.batch }
	for a := range steps {
		for b := range steps {
			if steps[a].last {
				continue
			}
			c.Case(fmt.Sprintf("seq/%s/%s", steps[a].name, steps[b].name), func(k *Case) {
				seqAll(steps, b, 4-1, any, func(seq []seqStep) bool {
					s := seqStart(k, 0, 1, 1)
					if s == nil {
						return false
					}
					seqRun(k, s, append([]seqStep{steps[a]}, seq...), false, false)
					s.w.End()
					return !s.failed
				})
			})
			if !steps[a].batch || !steps[b].batch {
				continue
			}
			c.Case(fmt.Sprintf("batch/%s/%s", steps[a].name, steps[b].name), func(k *Case) {
				seqAll(steps, b, Pick(c, 4, 5)-1, batch, func(seq []seqStep) bool {
					s := seqStart(k, 0, 1, 1)
					if s == nil {
						return false
					}
					seqRun(k, s, append([]seqStep{steps[a]}, seq...), true, false)
					s.w.End()
					return !s.failed
				})
			})
		}
	}
	// the byte stream of a fixed conversation cut at every position, and delivered byte by byte
	mk := func(s *seqWorld) []byte {
		var out []byte
		for _, n := range []string{"tur", "write", "read", "wpend!", "nop", "nop-", "snack", "text", "tur!"} {
			for _, st := range steps {
				if st.name == n {
					s.hist = append(s.hist, n)
					for _, p := range st.run(s) {
						out = append(out, p.Bytes()...)
					}
				}
			}
		}
		return out
	}
	c.Case("cut/bytes", func(k *Case) {
		s := seqStart(k, 0, 1, 1)
		if s == nil {
			return
		}
		for _, b := range mk(s) {
			s.i.Raw([]byte{b})
			h.Settle()
			k.Op(1)
		}
		s.collect(true)
		s.w.End()
	})
	for part := 0; part < 16; part++ {
		c.Case(fmt.Sprintf("cut/%d", part), func(k *Case) {
			n := 1 << 30
			for at := part; at < n; at += 16 {
				s := seqStart(k, 0, 1, 1)
				if s == nil {
					return
				}
				b := mk(s)
				n = len(b)
				if at > n {
					s.w.End()
					return
				}
				s.i.Raw(b[:at])
				h.Settle()
				s.i.Raw(b[at:])
				k.Op(1)
				s.collect(true)
				s.w.End()
				if s.failed {
					k.Fail("cut", "stream cut after %d bytes", at)
					return
				}
			}
		})
	}
	arrival(c, Pick(c, 3, 4), false, []uint32{1})
}

func p11(c *Ctx) {
	steps := seqSteps()
	starts := []uint32{0, 1, 2, 0x7ffffffe, 0x7fffffff, 0x80000000, 0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff, 0xffffff80, 0xffffff7f}
	for a := range steps {
		for si, st := range starts {
			if steps[a].last {
				continue
			}
			c.Case(fmt.Sprintf("seq/%s/%x", steps[a].name, st), func(k *Case) {
				seqAll(steps, a, Pick(c, 3, 4), func(s seqStep) bool { return true }, func(seq []seqStep) bool {
					s := seqStart(k, si%4+1, st, starts[(si*5+a)%len(starts)])
					if s == nil {
						return false
					}
					if !s.failed {
						seqRun(k, s, seq, false, true)
					}
					s.w.End()
					return !s.failed
				})
			})
		}
	}
	// the window does not depend on what was negotiated, and all of it can be used
	for order := 1; order <= 26; order++ {
		for _, kv := range [][]string{nil, {"MaxRecvDataSegmentLength", "512"}, {"MaxRecvDataSegmentLength", "16777215"}, {"MaxQueueCmd", "3"}} {
			for _, st := range []uint32{1, 0xffffffc0} {
				c.Case(fmt.Sprintf("window/%d/%v/%x", order, kv, st), func(k *Case) {
					s := seqStart(k, order, st, st, kv...)
					if s == nil {
						return
					}
					defer s.w.End()
					by := map[string]seqStep{}
					for _, x := range steps {
						by[x.name] = x
					}
					var seq []seqStep
					for n := 0; n < 129; n++ {
						seq = append(seq, by["wpend"])
					}
					seqRun(k, s, append(seq, by["tur"], by["far"], by["old"], by["tur"]), order%2 == 0, true)
					for !s.failed && len(s.pend) > 0 {
						seqRun(k, s, []seqStep{by["doutN"], by["dout0"], by["far"], by["old"]}, false, true)
					}
				})
			}
		}
	}
	arrival(c, Pick(c, 3, 4), true, starts)
	p11bursts(c, starts)
	p11gap(c, starts)
}

// p11bursts numbers writes of several bursts and reads of several PDUs between other requests.
func p11bursts(c *Ctx, starts []uint32) {
	for bursts := 2; bursts <= Pick(c, 4, 6); bursts++ {
		for imm := 0; imm <= 512; imm += 512 {
			for _, st := range starts {
				c.Case(fmt.Sprintf("burst/%d/%d/%x", bursts, imm, st), func(k *Case) {
					s := seqStart(k, 0, st, st, "MaxBurstLength", "512", "MaxRecvDataSegmentLength", "512")
					if s == nil {
						return
					}
					defer s.w.End()
					by := map[string]seqStep{}
					for _, x := range seqSteps() {
						by[x.name] = x
					}
					for round := 0; round < 2 && !s.failed; round++ {
						data := h.Fill(512*bursts, byte(7+round))
						t := &wtask{i: s.i, data: data, imm: imm}
						first := t.next()
						s.accept()
						s.hist = append(s.hist, "write")
						r2t := func() {
							s.owe("R2T", h.OpR2T, first.ITT(), false, func(q h.PDU) string { t.r2t = &q; t.off, t.sn = 0, 0; return "" })
						}
						r2t()
						s.i.Send(first)
						h.Settle()
						s.collect(true)
						for off := imm; off < len(data) && !s.failed; off += 512 {
							// something else in between has the StatSN the R2T showed
							seqRun(k, s, []seqStep{by["tur"]}, false, true)
							if s.failed {
								return
							}
							if off+512 < len(data) {
								r2t()
							} else {
								s.owe("WRITE", h.OpResp, first.ITT(), true, status(0, 0))
								copy(s.model, data)
							}
							s.i.Send(t.next())
							h.Settle()
							s.collect(true)
						}
						if s.failed {
							return
						}
						// a read of several Data-In PDUs takes one StatSN
						p := s.i.CmdPDU(0, h.C10(0x28, 0, 0, uint16(bursts)), len(data), true, false)
						s.accept()
						s.hist = append(s.hist, "read")
						s.i.Send(p)
						h.Settle()
						got := s.i.Recv()
						n := 0
						for x, q := range got {
							st := q.B[1]&1 != 0 || q.Op() == h.OpResp
							if q.ITT() != p.ITT() || q.ExpCmdSN() != s.exp || q.MaxCmdSN() != s.exp+s.win || st && q.StatSN() != s.stat || st != (x == len(got)-1) {
								s.fail("read-numbers", "PDU %d of %d: %s, want StatSN %d ExpCmdSN %d", x, len(got), q.String(), s.stat, s.exp)
								return
							}
							n += len(q.Data)
						}
						if n != len(data) {
							s.fail("read-numbers", "%d bytes of %d", n, len(data))
							return
						}
						s.stat++
						k.State(fmt.Sprint("burst", bursts, imm, round))
					}
					if !s.failed {
						seqRun(k, s, []seqStep{by["tur"], by["far"], by["tur"]}, false, true)
					}
				})
			}
		}
	}
}

// p11gap sends a request ahead of its turn, inside the window, and then what it waits for.
func p11gap(c *Ctx, starts []uint32) {
	for _, kind := range []string{"nop", "tmf", "text", "tur", "bidi"} {
		for _, d := range []uint32{1, 2, 3, 64, 127, 128} {
			for _, st := range starts {
				c.Case(fmt.Sprintf("gap/%s/%d/%x", kind, d, st), func(k *Case) {
					s := seqStart(k, 0, st, st)
					if s == nil {
						return
					}
					defer s.w.End()
					s.hist = []string{fmt.Sprintf("%s %d ahead of %d:", kind, d, st)}
					var p *h.PDU
					if kind == "tur" || kind == "bidi" {
						p = s.i.CmdPDU(0, h.TUR(), 0, kind == "bidi", kind == "bidi")
					} else {
						p = &h.PDU{}
						p.B[0], p.B[1] = map[string]byte{"nop": h.OpNopOut, "tmf": h.OpTMF, "text": h.OpText}[kind], 0x80
						if kind == "tmf" {
							p.B[1] |= 2
						}
						p.Put32(16, s.i.ITT())
						p.Put32(20, 0xffffffff)
						p.Put32(28, s.i.ExpStat)
						if kind == "tmf" {
							p.Put32(20, 0)
						}
					}
					p.Put32(24, st+d)
					s.i.CmdSN = st
					answered, stat := 0, s.stat
					// see takes what arrives: ExpCmdSN is at least lo and at most hi
					see := func(what string, itt uint32, lo, hi uint32) bool {
						found := itt == 0
						for _, q := range s.i.Recv() {
							if q.ITT() == p.ITT() {
								answered++
							} else if q.ITT() == itt {
								found = true
							} else {
								s.fail("gap-extra", "%s: %s", what, q.String())
								return false
							}
							if q.StatSN() != stat {
								s.fail("statsn gap", "%s: %s, want StatSN %d", what, q.String(), stat)
								return false
							}
							stat++
							if e := q.ExpCmdSN(); e-lo > hi-lo || q.MaxCmdSN() != e+s.win {
								s.fail("expcmdsn gap", "%s: ExpCmdSN %d, MaxCmdSN %d, want ExpCmdSN %d to %d", what, e, q.MaxCmdSN(), lo, hi)
								return false
							}
						}
						if !found {
							s.fail("gap-missing", "%s: no answer", what)
						}
						return found
					}
					s.i.Send(p)
					h.Settle()
					if !see(kind, 0, st, st) {
						return
					}
					for x := uint32(0); x < d; x++ {
						q := s.i.CmdPDU(0, h.TUR(), 0, false, false)
						s.i.Send(q)
						h.Settle()
						hi := st + x + 1
						if x == d-1 {
							hi++
						}
						if !see(fmt.Sprintf("TUR %d", st+x), q.ITT(), st+x+1, hi) {
							return
						}
					}
					k.State(fmt.Sprint("gap", kind, d))
					if answered != 1 {
						key := "gap-unanswered " + kind
						if answered > 1 {
							key = "gap-twice"
						}
						s.fail(key, "%d answers once its turn has come", answered)
						return
					}
					// its number is used up: what comes after it is served
					q := s.i.CmdPDU(0, h.TUR(), 0, false, false)
					q.Put32(24, st+d+1)
					s.i.Send(q)
					h.Settle()
					ok := false
					for _, a := range s.i.Recv() {
						ok = ok || a.ITT() == q.ITT() && a.ExpCmdSN() == st+d+2
					}
					if !ok {
						s.fail("gap-number "+kind, "%s was answered ahead of its turn, and its CmdSN %d is never accepted: the request after it is not answered", kind, st+d)
					}
				})
			}
		}
	}
}

// permutations calls f with every order of 0..n-1.
func permutations(n int, f func([]int) bool) bool {
	var rec func(at []int, used int) bool
	rec = func(at []int, used int) bool {
		if len(at) == n {
			return f(at)
		}
		for x := 0; x < n; x++ {
			if used>>x&1 == 0 && !rec(append(append([]int{}, at...), x), used|1<<x) {
				return false
			}
		}
		return true
	}
	return rec(nil, 0)
}

// arrival sends every sequence of n non-immediate requests in every order of arrival; their CmdSNs order them.
func arrival(c *Ctx, n int, numbers bool, starts []uint32) {
	by := map[string]seqStep{}
	for _, x := range seqSteps() {
		by[x.name] = x
	}
	var steps []seqStep
	for _, x := range []string{"tur", "read", "readbad", "write", "wpend", "nop", "text", "bidi", "logout"} {
		steps = append(steps, by[x])
	}
	run := func(k *Case, seq []seqStep, order []int, st uint32, drop int, fn byte) bool {
		s := seqStart(k, 0, st, st)
		if s == nil {
			return false
		}
		defer s.w.End()
		var ps []*h.PDU
		var dues [][]due
		for _, x := range seq {
			ps = append(ps, x.run(s)...)
			dues = append(dues, s.due)
			s.due = nil
			s.hist = append(s.hist, x.name)
		}
		s.hist = append(s.hist, fmt.Sprintf("arriving as %v", order))
		abort := func() bool {
			// the request that waits is aborted
			s.hist = append(s.hist, fmt.Sprintf("function %d on %d", fn, drop))
			p := &h.PDU{}
			p.B[0], p.B[1] = h.OpTMF|0x40, 0x80|fn
			p.Put32(16, s.i.ITT()).Put32(20, 0xffffffff).Put32(24, st).Put32(28, s.i.ExpStat)
			if fn == 1 {
				p.Put32(20, ps[drop].ITT())
			}
			s.due = []due{{"task management", h.OpTMFResp, p.ITT(), true, st, func(q h.PDU) string {
				if q.B[2] != 0 {
					return fmt.Sprintf("response %d", q.B[2])
				}
				return ""
			}}}
			m, exp := s.model, s.exp
			s.model = make([]byte, len(m))
			s.i.Send(p)
			s.collect(numbers)
			s.model, s.exp = m, exp
			return !s.failed
		}
		for n, x := range order {
			if drop >= 0 && n == len(order)-1 && !abort() {
				return false
			}
			s.i.Send(ps[x])
		}
		s.due = nil
		for x, d := range dues {
			if drop >= 0 && (x == drop || fn != 1 && x > 0 && ps[x].B[0]&0x3f == h.OpCmd) {
				continue
			}
			s.due = append(s.due, d...)
		}
		k.Op(len(order))
		s.collect(numbers)
		if !s.failed && !s.closed {
			seqRun(k, s, []seqStep{by["tur"], by["far"], by["old"], by["nop"]}, false, numbers)
		}
		if !s.failed {
			k.State(fmt.Sprint("arrival", len(s.pend), s.closed, hash(string(s.model))))
			k.crashes(s.w, "crash")
		}
		return !s.failed
	}
	for a := range steps {
		c.Case("arrival/"+steps[a].name, func(k *Case) {
			e := 0
			seqAll(steps, a, n, func(seqStep) bool { return true }, func(seq []seqStep) bool {
				e++
				return permutations(len(seq), func(o []int) bool { return run(k, seq, o, starts[e%len(starts)], -1, 0) })
			})
		})
	}
	// a request that waits for its turn can be aborted, and its number is used up all the same
	abortable := []seqStep{by["tur"], by["read"], by["nop"], by["text"]}
	for a := range abortable {
		for _, fn := range []byte{1, 2, 5} {
			c.Case(fmt.Sprintf("abort-waiting/%d/%s", fn, abortable[a].name), func(k *Case) {
				e := 0
				seqAll(abortable, a, n, func(seqStep) bool { return true }, func(seq []seqStep) bool {
					for drop := 1; drop < len(seq); drop++ {
						if seq[drop].name == "nop" || seq[drop].name == "text" {
							continue
						}
						e++
						ok := permutations(len(seq), func(o []int) bool {
							return o[len(o)-1] != 0 || run(k, seq, o, starts[e%len(starts)], drop, fn)
						})
						if !ok {
							return false
						}
					}
					return true
				})
			})
		}
	}
}
