package h

import "encoding/binary"

// CDB builders.

func C6(op byte, lba uint32, n byte) []byte {
	return []byte{op, byte(lba>>16) & 0x1f, byte(lba >> 8), byte(lba), n, 0}
}
func C10(op, b1 byte, lba uint32, n uint16) []byte {
	c := make([]byte, 10)
	c[0], c[1] = op, b1
	binary.BigEndian.PutUint32(c[2:], lba)
	binary.BigEndian.PutUint16(c[7:], n)
	return c
}
func C12(op, b1 byte, lba, n uint32) []byte {
	c := make([]byte, 12)
	c[0], c[1] = op, b1
	binary.BigEndian.PutUint32(c[2:], lba)
	binary.BigEndian.PutUint32(c[6:], n)
	return c
}
func C16(op, b1 byte, lba uint64, n uint32) []byte {
	c := make([]byte, 16)
	c[0], c[1] = op, b1
	binary.BigEndian.PutUint64(c[2:], lba)
	binary.BigEndian.PutUint32(c[10:], n)
	return c
}

func Inquiry(evpd bool, page byte, alloc uint16) []byte {
	c := make([]byte, 6)
	c[0] = 0x12
	if evpd {
		c[1] = 1
	}
	c[2] = page
	binary.BigEndian.PutUint16(c[3:], alloc)
	return c
}
func TUR() []byte { return make([]byte, 6) }
func ReadCap10() []byte {
	c := make([]byte, 10)
	c[0] = 0x25
	return c
}
func ReadCap16(alloc uint32) []byte {
	c := make([]byte, 16)
	c[0], c[1] = 0x9e, 0x10
	binary.BigEndian.PutUint32(c[10:], alloc)
	return c
}
func ReportLuns(alloc uint32) []byte {
	c := make([]byte, 12)
	c[0] = 0xa0
	binary.BigEndian.PutUint32(c[6:], alloc)
	return c
}
func ModeSense6(pc, page, sub, alloc byte, dbd bool) []byte {
	c := []byte{0x1a, 0, pc<<6 | page, sub, alloc, 0}
	if dbd {
		c[1] = 8
	}
	return c
}
func ModeSense10(pc, page, sub byte, alloc uint16, dbd bool) []byte {
	c := make([]byte, 10)
	c[0], c[2], c[3] = 0x5a, pc<<6|page, sub
	if dbd {
		c[1] = 8
	}
	binary.BigEndian.PutUint16(c[7:], alloc)
	return c
}

// RW is a way to address blocks.
type RW struct {
	Name string
	Op   byte
	Size int    // CDB length
	Max  uint64 // largest LBA expressible
	MaxN uint64
}

var Reads = []RW{{"READ(6)", 0x08, 6, 1<<21 - 1, 256}, {"READ(10)", 0x28, 10, 1<<32 - 1, 65535}, {"READ(12)", 0xa8, 12, 1<<32 - 1, 1<<32 - 1}, {"READ(16)", 0x88, 16, 1<<64 - 1, 1<<32 - 1}}
var Writes = []RW{{"WRITE(6)", 0x0a, 6, 1<<21 - 1, 256}, {"WRITE(10)", 0x2a, 10, 1<<32 - 1, 65535}, {"WRITE(12)", 0xaa, 12, 1<<32 - 1, 1<<32 - 1}, {"WRITE(16)", 0x8a, 16, 1<<64 - 1, 1<<32 - 1},
	{"WRITE AND VERIFY(10)", 0x2e, 10, 1<<32 - 1, 65535}, {"WRITE AND VERIFY(12)", 0xae, 12, 1<<32 - 1, 1<<32 - 1}, {"WRITE AND VERIFY(16)", 0x8e, 16, 1<<64 - 1, 1<<32 - 1}}

func (r RW) CDB(b1 byte, lba uint64, n uint64) []byte {
	switch r.Size {
	case 6:
		return C6(r.Op, uint32(lba), byte(n))
	case 10:
		return C10(r.Op, b1, uint32(lba), uint16(n))
	case 12:
		return C12(r.Op, b1, uint32(lba), uint32(n))
	}
	return C16(r.Op, b1, lba, uint32(n))
}

// Block commands besides READ and WRITE.
var (
	Verifies   = []RW{{"VERIFY(10)", 0x2f, 10, 1<<32 - 1, 65535}, {"VERIFY(12)", 0xaf, 12, 1<<32 - 1, 1<<32 - 1}, {"VERIFY(16)", 0x8f, 16, 1<<64 - 1, 1<<32 - 1}}
	Syncs      = []RW{{"SYNCHRONIZE CACHE(10)", 0x35, 10, 1<<32 - 1, 65535}, {"SYNCHRONIZE CACHE(16)", 0x91, 16, 1<<64 - 1, 1<<32 - 1}}
	Prefetches = []RW{{"PRE-FETCH(10)", 0x34, 10, 1<<32 - 1, 65535}, {"PRE-FETCH(16)", 0x90, 16, 1<<64 - 1, 1<<32 - 1}}
	WriteSames = []RW{{"WRITE SAME(10)", 0x41, 10, 1<<32 - 1, 65535}, {"WRITE SAME(16)", 0x93, 16, 1<<64 - 1, 1<<32 - 1}}
	OrWrite    = RW{"ORWRITE(16)", 0x8b, 16, 1<<64 - 1, 1<<32 - 1}
)

// Unmap builds an UNMAP CDB and its parameter list.
func Unmap(desc ...[2]uint64) (cdb, data []byte) {
	data = make([]byte, 8+16*len(desc))
	binary.BigEndian.PutUint16(data, uint16(len(data)-2))
	binary.BigEndian.PutUint16(data[2:], uint16(16*len(desc)))
	for i, d := range desc {
		binary.BigEndian.PutUint64(data[8+16*i:], d[0])
		binary.BigEndian.PutUint32(data[16+16*i:], uint32(d[1]))
	}
	cdb = make([]byte, 10)
	cdb[0] = 0x42
	binary.BigEndian.PutUint16(cdb[7:], uint16(len(data)))
	return
}
