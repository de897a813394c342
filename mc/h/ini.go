package h

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"time"

	"verifmc/shim"
)

// Ini is one initiator connection.
type Ini struct {
	W        *World
	C        *shim.Conn
	Name     string
	ISID     uint64
	TSIH     uint16
	CID      uint16
	CmdSN    uint32
	ExpStat  uint32
	NextITT  uint32
	tags     uint32
	buf      []byte
	EOF      bool
	Bad      error  // the target's byte stream is not a PDU sequence
	ImmLimit int    // bytes of immediate data to send with a write
	Seg      int    // Data-Out segment length
	All      []PDU  // everything received
	Block    bool   // answers are waited for one by one (initiators that are threads of a schedule)
	wait     func() // how to wait for the system to go quiet
}

// Dial opens a connection to portal from the given client address.
func (w *World) Dial(from, portal string) *Ini {
	c := w.S.Dial(from, portal)
	if c == nil {
		return nil
	}
	i := &Ini{W: w, C: c, Name: "iqn.2020-01.verif:ini", ISID: 0x80_0000_000001, CmdSN: 1, ExpStat: 1, NextITT: 1, ImmLimit: 65536, Seg: 8192, wait: Settle}
	i.wait()
	return i
}

// DialThread is Dial for an initiator that is a thread of a schedule.
func (w *World) DialThread(from, portal string) *Ini {
	c := w.S.Dial(from, portal)
	if c == nil {
		return nil
	}
	i := &Ini{W: w, C: c, Name: "iqn.2020-01.verif:ini", ISID: 0x80_0000_000001, CmdSN: 1, ExpStat: 1, NextITT: 1, ImmLimit: 65536, Seg: 8192}
	i.Threaded(true)
	return i
}

// Slow makes the initiator look for answers only after a while.
func (i *Ini) Slow(d time.Duration) {
	i.wait = func() { Settle(); time.Sleep(d); Settle() }
}

// Threaded switches between waiting for answers and waiting for quiescence.
func (i *Ini) Threaded(on bool) {
	i.Block = on
	i.wait = Settle
	if on {
		i.wait = i.C.Await
	}
}

// Raw sends bytes and waits for quiescence.
func (i *Ini) Raw(b []byte) {
	i.C.Write(b)
}

// Send sends PDUs without waiting.
func (i *Ini) Send(ps ...*PDU) {
	var b []byte
	for _, p := range ps {
		b = append(b, p.Bytes()...)
	}
	i.C.Write(b)
}

// Recv waits for quiescence and returns the PDUs that arrived since the last call.
func (i *Ini) Recv() []PDU {
	for {
		if ps := i.recv(); len(ps) > 0 || !i.Block || i.EOF || i.Bad != nil {
			return ps
		}
	}
}

func (i *Ini) recv() []PDU {
	i.wait()
	b, eof := i.C.Take()
	i.buf = append(i.buf, b...)
	ps, rest, err := ParsePDUs(i.buf)
	i.buf = append([]byte{}, rest...)
	if err != nil && i.Bad == nil {
		i.Bad = err
	}
	i.EOF = i.EOF || eof
	i.All = append(i.All, ps...)
	for k := range ps {
		p := &ps[k]
		switch p.Op() {
		case OpR2T:
		case OpDataIn:
			if p.B[1]&1 != 0 {
				i.ExpStat = p.StatSN() + 1
			}
		default:
			i.ExpStat = p.StatSN() + 1
		}
	}
	return ps
}

// Answered tells whether a status for the task is on its way to the initiator.
func (i *Ini) Answered(itt uint32) bool {
	ps, _, _ := ParsePDUs(append(append([]byte{}, i.buf...), i.C.Peek()...))
	for _, p := range ps {
		if p.ITT() == itt && (p.Op() == OpResp || p.Op() == OpDataIn && p.B[1]&1 != 0) {
			return true
		}
	}
	return false
}

// Do sends one PDU and returns the answers.
func (i *Ini) Do(p *PDU) []PDU {
	i.Send(p)
	return i.Recv()
}

// ITT gives the next task tag. Tags used close together differ in the highest byte only.
func (i *Ini) ITT() uint32 {
	t := i.NextITT
	i.tags++
	i.NextITT = i.tags%255<<24 | (i.tags/8+1)&0xffffff
	return t
}

// ContinueTags makes the task tags of i follow those of another connection.
func (i *Ini) ContinueTags(o *Ini) { i.tags, i.NextITT = o.tags, o.NextITT }

// Close closes the connection from the initiator's side.
func (i *Ini) Close() {
	i.C.Close()
	if !i.Block {
		i.wait()
	}
}

// Login performs the usual single-exchange operational login to target index ti. Extra keys may follow.
func (i *Ini) Login(ti int, kv ...string) bool {
	return i.LoginName(i.W.Names[ti], kv...)
}

func (i *Ini) LoginName(name string, kv ...string) bool {
	text := KV("InitiatorName", i.Name, "SessionType", "Normal", "TargetName", name) + KV(kv...)
	return i.loginText(text)
}

func (i *Ini) loginText(text string) bool {
	ps := i.Do(LoginPDU(i.ISID, i.TSIH, i.CID, 1, 3, true, i.ITT(), i.CmdSN, i.ExpStat, text))
	if len(ps) != 1 || ps[0].Op() != OpLoginR || ps[0].B[36] != 0 || ps[0].B[1]&0x83 != 0x83 {
		return false
	}
	i.TSIH = binary.BigEndian.Uint16(ps[0].B[14:])
	return true
}

func (i *Ini) LoginDiscovery() bool {
	return i.loginText(KV("InitiatorName", i.Name, "SessionType", "Discovery"))
}

// Session dials and logs in, or returns nil.
func (w *World) Session(n int, ti int, kv ...string) *Ini {
	i := w.Dial(fmt.Sprintf("10.0.0.%d:%d", n+1, 40000+n), Portal)
	if i == nil {
		return nil
	}
	i.ISID = 0x80_0000_000001 + uint64(n)
	i.Name = fmt.Sprintf("iqn.2020-01.verif:ini%d", n)
	if !i.Login(ti, kv...) {
		return nil
	}
	return i
}

// CmdPDU builds a SCSI command PDU.
func (i *Ini) CmdPDU(lun uint64, cdb []byte, edtl int, r, w bool) *PDU {
	p := &PDU{}
	p.B[0] = OpCmd
	p.B[1] = 0x80 | 0x01
	if r {
		p.B[1] |= 0x40
	}
	if w {
		p.B[1] |= 0x20
	}
	p.SetLUN(lun)
	p.Put32(16, i.ITT())
	p.Put32(20, uint32(edtl))
	p.Put32(24, i.CmdSN)
	p.Put32(28, i.ExpStat)
	copy(p.B[32:48], cdb)
	i.CmdSN++
	return p
}

// DataOut builds a Data-Out PDU.
func (i *Ini) DataOut(lun uint64, itt, ttt, sn, off uint32, data []byte, final bool) *PDU {
	p := &PDU{Data: data}
	p.B[0] = OpDataOut
	if final {
		p.B[1] = 0x80
	}
	p.SetLUN(lun)
	p.Put32(16, itt)
	p.Put32(20, ttt)
	p.Put32(28, i.ExpStat)
	p.Put32(36, sn)
	p.Put32(40, off)
	return p
}

// Result is how a SCSI command ended, seen from the initiator.
type Result struct {
	Got      bool // a status arrived
	Status   byte
	Response byte
	Sense    []byte // sense data without the length prefix
	SenseLen int
	Data     []byte
	Over     bool // residual overflow / underflow flags and count
	Under    bool
	Resid    uint32
	PDUs     []PDU
	R2Ts     []PDU
	Closed   bool
	Problem  string // protocol-level irregularity
	ITT      uint32
}

func (r *Result) Key() byte {
	if len(r.Sense) > 2 && r.Sense[0]&0x7f == 0x70 {
		return r.Sense[2] & 0xf
	}
	return 0xff
}
func (r *Result) ASC() int {
	if len(r.Sense) > 13 && r.Sense[0]&0x7f == 0x70 {
		return int(r.Sense[12])<<8 | int(r.Sense[13])
	}
	return -1
}
func (r *Result) Check(key byte, asc int) bool {
	return r.Got && r.Status == 2 && r.Key() == key && r.ASC() == asc
}
func (r *Result) Good() bool { return r.Got && r.Status == 0 && r.Response == 0 }
func (r *Result) String() string {
	if !r.Got {
		s := "no status"
		if r.Closed {
			s += ", connection closed"
		}
		if r.Problem != "" {
			s += ", " + r.Problem
		}
		return s
	}
	s := fmt.Sprintf("status %02xh", r.Status)
	if r.Status == 2 {
		s += fmt.Sprintf(" key %xh asc %04xh", r.Key(), r.ASC())
	}
	if len(r.Data) > 0 {
		s += fmt.Sprintf(" data[%d]=%x", len(r.Data), short(r.Data))
	}
	if r.Over || r.Under {
		s += fmt.Sprintf(" resid %d over=%v under=%v", r.Resid, r.Over, r.Under)
	}
	if r.Problem != "" {
		s += " (" + r.Problem + ")"
	}
	return s
}

// absorb accounts one PDU to the command.
// Absorb accounts one PDU to the command.
func (r *Result) Absorb(p PDU) { r.absorb(p, 0) }

func (r *Result) absorb(p PDU, edtl int) {
	r.PDUs = append(r.PDUs, p)
	bad := func(f string, a ...any) {
		if r.Problem == "" {
			r.Problem = fmt.Sprintf(f, a...)
		}
	}
	status := func() {
		if r.Got {
			bad("second status for the same task")
		}
		r.Got = true
		r.Status = p.Status()
		r.Over = p.B[1]&0x04 != 0
		r.Under = p.B[1]&0x02 != 0
		r.Resid = p.Resid()
	}
	switch p.Op() {
	case OpDataIn:
		if int(p.Offset()) != len(r.Data) {
			bad("Data-In offset %d after %d bytes", p.Offset(), len(r.Data))
		}
		if r.Got {
			bad("Data-In after the status")
		}
		r.Data = append(r.Data, p.Data...)
		if p.B[1]&1 != 0 {
			status()
		}
	case OpResp:
		status()
		r.Response = p.B[2]
		if len(p.Data) >= 2 {
			r.SenseLen = int(p.Data[0])<<8 | int(p.Data[1])
			r.Sense = p.Data[2:]
		}
	case OpR2T:
		r.R2Ts = append(r.R2Ts, p)
	default:
		bad("unexpected %s", p.String())
	}
}

// Exec runs one SCSI command to its end: immediate data up to ImmLimit, the rest as solicited.
func (i *Ini) Exec(lun uint64, cdb []byte, edtl int, rd bool, out []byte) *Result {
	p := i.CmdPDU(lun, cdb, edtl, rd && out == nil, out != nil)
	if out != nil {
		n := len(out)
		if n > i.ImmLimit {
			n = i.ImmLimit
		}
		p.Data = out[:n]
	}
	return i.Finish(p, lun, edtl, out)
}

// Finish sends the command PDU and serves R2Ts until nothing more happens.
func (i *Ini) Finish(p *PDU, lun uint64, edtl int, out []byte) *Result {
	r := &Result{ITT: p.ITT()}
	i.Send(p)
	for k := 0; k < 10000; k++ {
		ps := i.Recv()
		if i.Bad != nil {
			r.Problem = i.Bad.Error()
		}
		var todo []PDU
		for _, q := range ps {
			if q.ITT() != p.ITT() {
				if r.Problem == "" {
					r.Problem = "PDU for another task: " + q.String()
				}
				continue
			}
			r.absorb(q, edtl)
			if q.Op() == OpR2T {
				todo = append(todo, q)
			}
		}
		if len(todo) == 0 && (!i.Block || r.Got || i.EOF || i.Bad != nil) {
			break
		}
		for _, q := range todo {
			if !i.ServeR2T(q, lun, out) {
				r.Problem = fmt.Sprintf("R2T outside the data: %s of %d", q.String(), len(out))
				r.Closed = i.EOF
				return r
			}
		}
	}
	r.Closed = i.EOF
	return r
}

// ServeR2T sends the Data-Out PDUs an R2T asks for.
func (i *Ini) ServeR2T(q PDU, lun uint64, out []byte) bool {
	off, n := int(q.Offset()), int(q.Desired())
	if n == 0 || off+n > len(out) {
		return false
	}
	sn := uint32(0)
	for done := 0; done < n; {
		m := n - done
		if m > i.Seg {
			m = i.Seg
		}
		i.Send(i.DataOut(lun, q.ITT(), q.TTT(), sn, uint32(off+done), out[off+done:off+done+m], done+m == n))
		sn++
		done += m
	}
	return true
}

// Fill makes n bytes that name their own position and a tag.
func Fill(n int, tag byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i) ^ byte(i>>8)*31 ^ tag
	}
	for i := 0; i+16 <= n; i += 512 {
		copy(b[i:], fmt.Sprintf("%02x/%08x", tag, i))
	}
	return b
}

var _ = bytes.Equal
