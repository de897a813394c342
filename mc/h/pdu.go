// Package h is the harness library: an initiator that speaks raw iSCSI PDUs, backing stores the harness
// owns, and a world (real target driver + real SCSI layer) inside a synctest bubble.
package h

import (
	"encoding/binary"
	"fmt"
)

// PDU is a basic header segment plus (unpadded) data.
type PDU struct {
	B    [48]byte
	AHS  []byte
	Data []byte
}

const (
	OpNopOut  = 0x00
	OpCmd     = 0x01
	OpTMF     = 0x02
	OpLogin   = 0x03
	OpText    = 0x04
	OpDataOut = 0x05
	OpLogout  = 0x06
	OpSNACK   = 0x10
	OpNopIn   = 0x20
	OpResp    = 0x21
	OpTMFResp = 0x22
	OpLoginR  = 0x23
	OpTextR   = 0x24
	OpDataIn  = 0x25
	OpLogoutR = 0x26
	OpR2T     = 0x31
	OpAsync   = 0x32
	OpReject  = 0x3f
)

func (p *PDU) Op() byte           { return p.B[0] & 0x3f }
func (p *PDU) Flags() byte        { return p.B[1] }
func (p *PDU) U32(off int) uint32 { return binary.BigEndian.Uint32(p.B[off:]) }
func (p *PDU) Put32(off int, v uint32) *PDU {
	binary.BigEndian.PutUint32(p.B[off:], v)
	return p
}
func (p *PDU) ITT() uint32      { return p.U32(16) }
func (p *PDU) TTT() uint32      { return p.U32(20) }
func (p *PDU) StatSN() uint32   { return p.U32(24) }
func (p *PDU) ExpCmdSN() uint32 { return p.U32(28) }
func (p *PDU) MaxCmdSN() uint32 { return p.U32(32) }
func (p *PDU) DataSN() uint32   { return p.U32(36) }
func (p *PDU) Offset() uint32   { return p.U32(40) }
func (p *PDU) Resid() uint32    { return p.U32(44) }
func (p *PDU) Desired() uint32  { return p.U32(44) }
func (p *PDU) Status() byte     { return p.B[3] }
func (p *PDU) SetLUN(lun uint64) {
	// peripheral device addressing below 256, flat space addressing above
	if lun < 256 {
		p.B[9] = byte(lun)
	} else {
		p.B[8] = 0x40 | byte(lun>>8)&0x3f
		p.B[9] = byte(lun)
	}
}

// Bytes encodes the PDU with a consistent data segment length and padding.
func (p *PDU) Bytes() []byte {
	b := p.B
	b[4] = byte(len(p.AHS) / 4)
	n := len(p.Data)
	b[5], b[6], b[7] = byte(n>>16), byte(n>>8), byte(n)
	out := append([]byte{}, b[:]...)
	out = append(out, p.AHS...)
	out = append(out, p.Data...)
	for len(out)%4 != 0 {
		out = append(out, 0)
	}
	return out
}

// ParsePDUs splits what a target sent into PDUs; err tells of a stream that is not a PDU sequence.
func ParsePDUs(b []byte) (ps []PDU, rest []byte, err error) {
	for len(b) >= 48 {
		var p PDU
		copy(p.B[:], b)
		ahs := int(b[4]) * 4
		n := int(b[5])<<16 | int(b[6])<<8 | int(b[7])
		pad := (n + 3) / 4 * 4
		if !isTargetOp(p.Op()) {
			return ps, b, fmt.Errorf("target sent opcode 0x%02x (header % x)", p.Op(), b[:48])
		}
		if len(b) < 48+ahs+pad {
			break
		}
		p.AHS = append([]byte{}, b[48:48+ahs]...)
		p.Data = append([]byte{}, b[48+ahs:48+ahs+n]...)
		ps = append(ps, p)
		b = b[48+ahs+pad:]
	}
	return ps, b, nil
}

func isTargetOp(op byte) bool {
	switch op {
	case OpNopIn, OpResp, OpTMFResp, OpLoginR, OpTextR, OpDataIn, OpLogoutR, OpR2T, OpAsync, OpReject:
		return true
	}
	return false
}

func (p *PDU) String() string {
	switch p.Op() {
	case OpResp:
		return fmt.Sprintf("Resp{itt=%x st=%02x rsp=%02x flags=%02x statSN=%d exp=%d max=%d resid=%d data=%x}", p.ITT(), p.B[3], p.B[2], p.B[1], p.StatSN(), p.ExpCmdSN(), p.MaxCmdSN(), p.Resid(), short(p.Data))
	case OpDataIn:
		return fmt.Sprintf("DataIn{itt=%x flags=%02x st=%02x sn=%d off=%d len=%d statSN=%d exp=%d resid=%d}", p.ITT(), p.B[1], p.B[3], p.DataSN(), p.Offset(), len(p.Data), p.StatSN(), p.ExpCmdSN(), p.Resid())
	case OpR2T:
		return fmt.Sprintf("R2T{itt=%x ttt=%x r2tsn=%d off=%d len=%d}", p.ITT(), p.TTT(), p.DataSN(), p.Offset(), p.Desired())
	case OpLoginR:
		return fmt.Sprintf("LoginR{flags=%02x tsih=%x status=%02x%02x %q}", p.B[1], p.B[14:16], p.B[36], p.B[37], p.Data)
	}
	return fmt.Sprintf("PDU{op=%02x flags=%02x b2=%02x b3=%02x itt=%x len=%d}", p.Op(), p.B[1], p.B[2], p.B[3], p.ITT(), len(p.Data))
}

func short(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

// Login request.
func LoginPDU(isid uint64, tsih, cid uint16, csg, nsg byte, t bool, itt, cmdSN, expStatSN uint32, kv string) *PDU {
	p := &PDU{Data: []byte(kv)}
	p.B[0] = 0x40 | OpLogin
	p.B[1] = csg<<2 | nsg
	if t {
		p.B[1] |= 0x80
	}
	for i := 0; i < 6; i++ {
		p.B[8+i] = byte(isid >> (8 * (5 - i)))
	}
	binary.BigEndian.PutUint16(p.B[14:], tsih)
	p.Put32(16, itt)
	binary.BigEndian.PutUint16(p.B[20:], cid)
	p.Put32(24, cmdSN)
	p.Put32(28, expStatSN)
	return p
}

func KV(kv ...string) string {
	s := ""
	for i := 0; i+1 < len(kv); i += 2 {
		s += kv[i] + "=" + kv[i+1] + "\x00"
	}
	return s
}

// ParseKV is the harness's own reading of a text segment.
func ParseKV(b []byte) (keys []string, m map[string]string) {
	m = map[string]string{}
	start := 0
	for i := 0; i <= len(b); i++ {
		if i == len(b) || b[i] == 0 {
			s := string(b[start:i])
			start = i + 1
			for j := 0; j < len(s); j++ {
				if s[j] == '=' {
					keys = append(keys, s[:j])
					m[s[:j]] = s[j+1:]
					break
				}
			}
		}
	}
	return
}
