package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"verifmc/h"
)

func init() {
	reg("P06", "model_checking",
		"every size around 1, the 32-bit limits and partial last blocks x block sizes x thin or not, asked by READ CAPACITY(10), READ CAPACITY(16) with every allocation length, MODE SENSE(6/10) block descriptors and by I/O at the boundary; every sequence of resizes up to the depth with sessions opened before and after; oracle: size divided by block size; a state is (size, block size)",
		p06)
}

// capacity asks the unit for its size in every way and checks that it is nb blocks of 1<<shift bytes.
func capacity(k *Case, i *h.Ini, lun uint64, nb uint64, shift uint, thin bool, what string) {
	last32 := uint32(0xffffffff)
	if nb-1 < 0xffffffff {
		last32 = uint32(nb - 1)
	}
	bl := uint32(1) << shift
	r := i.Exec(lun, h.ReadCap10(), 8, true, nil)
	k.Op(1)
	if !r.Good() || len(r.Data) != 8 || binary.BigEndian.Uint32(r.Data) != last32 || binary.BigEndian.Uint32(r.Data[4:]) != bl {
		k.Fail("readcap10", "%s: %d blocks of %d: READ CAPACITY(10) %v", what, nb, bl, r)
	}
	r = i.Exec(lun, h.ReadCap16(32), 32, true, nil)
	k.Op(1)
	if !r.Good() || len(r.Data) != 32 || binary.BigEndian.Uint64(r.Data) != nb-1 || binary.BigEndian.Uint32(r.Data[8:]) != bl || (r.Data[14]&0x80 != 0) != thin || r.Data[12] != 0 {
		k.Fail("readcap16", "%s: %d blocks of %d thin=%v: READ CAPACITY(16) %v", what, nb, bl, thin, r)
	}
	n32 := uint32(0xffffffff)
	if nb < 0xffffffff {
		n32 = uint32(nb)
	}
	for _, m := range []struct {
		cdb []byte
		off int
	}{{h.ModeSense6(0, 8, 0, 255, false), 4}, {h.ModeSense10(0, 8, 0, 255, false), 8}, {h.ModeSense6(0, 0x3f, 0, 255, false), 4}, {h.ModeSense10(2, 0x3f, 0, 255, false), 8}} {
		r = i.Exec(lun, m.cdb, 255, true, nil)
		k.Op(1)
		if !r.Good() || len(r.Data) < m.off+8 || binary.BigEndian.Uint32(r.Data[m.off:]) != n32 || binary.BigEndian.Uint32(r.Data[m.off+4:])&0xffffff != bl || r.Data[m.off-1] != 8 {
			k.Fail("mode-block-descriptor", "%s: %d blocks of %d: MODE SENSE %x: %v", what, nb, bl, m.cdb, r)
		}
	}
	// the medium starts and ends there
	type at struct {
		lba, n uint64
		ok     bool
	}
	for _, x := range []at{{0, 1, true}, {nb - 1, 1, true}, {nb, 1, false}, {nb - 1, 2, false}, {nb, 0, false}} {
		for _, rd := range []h.RW{h.Reads[1], h.Reads[3]} {
			if x.lba > rd.Max {
				continue
			}
			r := i.Exec(lun, rd.CDB(0, x.lba, x.n), int(x.n)<<shift, true, nil)
			k.Op(1)
			if x.ok && (!r.Good() || len(r.Data) != int(x.n)<<shift) || !x.ok && !r.Check(5, 0x2100) {
				k.Fail("io-bound", "%s: %d blocks of %d: %s %d+%d: %v", what, nb, bl, rd.Name, x.lba, x.n, r)
			}
		}
	}
	for _, wr := range []h.RW{h.Writes[1], h.Writes[3]} {
		for _, x := range []at{{nb - 1, 1, true}, {nb, 1, false}} {
			if x.lba > wr.Max {
				continue
			}
			r := i.Exec(lun, wr.CDB(0, x.lba, x.n), 1<<shift, false, make([]byte, 1<<shift))
			k.Op(1)
			if x.ok && !r.Good() || !x.ok && !r.Check(5, 0x2100) {
				k.Fail("io-bound", "%s: %d blocks of %d: %s %d+%d: %v", what, nb, bl, wr.Name, x.lba, x.n, r)
			}
		}
	}
}

func p06(c *Ctx) {
	for _, shift := range []uint{9, 12, 10, 13, 16} {
		for _, nb := range []uint64{1, 2, 7, 255, 256, 257, 65535, 65536, 1<<21 - 1, 1 << 21, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<33 + 5, 1 << 40} {
			for _, extra := range []int{0, 1, 511, 1<<shift - 1} {
				for _, thin := range []bool{false, true} {
					if extra != 0 && thin || extra >= 1<<shift {
						continue
					}
					c.Case(fmt.Sprintf("size/%d/%d+%d/%v", shift, nb, extra, thin), func(k *Case) {
						w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Blocks: int(nb), Extra: extra, Shift: shift, Sparse: true, Thin: thin, Online: true}))
						defer w.End()
						i := w.Session(0, 0)
						if i == nil {
							k.Fail("no-session", "cannot log in")
							return
						}
						capacity(k, i, 0, nb, shift, thin, "configured")
						k.State(fmt.Sprint(nb, shift, thin))
						k.crashes(w, "crash")
					})
				}
			}
		}
	}
	// files and remote stores report their own size
	for _, kind := range []string{"file", "RemBs"} {
		for _, shift := range []uint{9, 12} {
			for _, nb := range []int{1, 5, 64} {
				for _, extra := range []int{0, 1, 511} {
					c.Case(fmt.Sprintf("kind/%s/%d/%d+%d", kind, shift, nb, extra), func(k *Case) {
						w := h.NewWorld(h.Simple(h.LUN{LUN: 3, Kind: kind, Blocks: nb, Extra: extra, Shift: shift, Online: true}))
						defer w.End()
						i := w.Session(0, 0)
						if i == nil {
							k.Fail("no-session", "cannot log in")
							return
						}
						capacity(k, i, 3, uint64(nb), shift, false, kind)
						k.State(fmt.Sprint(kind, nb, shift))
					})
				}
			}
		}
	}
	// resizing
	sizes := []uint64{1, 4, 8, 1 << 21, 1<<32 - 1, 1<<32 + 2}
	depth := Pick(c, 3, 4)
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) > 0 {
			for _, shift := range []uint{9, 12} {
				c.Case(fmt.Sprintf("resize/%d/%s", shift, strings.ReplaceAll(fmt.Sprint(seq), " ", ".")), func(k *Case) {
					w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Blocks: 1 << 33, Sparse: true, Shift: shift, Online: true}))
					defer w.End()
					i := w.Session(0, 0)
					if i == nil {
						k.Fail("no-session", "cannot log in")
						return
					}
					mark := h.Fill(1<<shift, 0x6b)
					if r := i.Exec(0, h.C10(0x2a, 0, 0, 1), len(mark), false, mark); !r.Good() {
						k.Fail("refused", "%v", r)
					}
					for n, s := range seq {
						if err := w.Drv.Resize(sizes[s] << shift); err != nil {
							k.Fail("resize", "Resize(%d): %v", sizes[s]<<shift, err)
							return
						}
						what := fmt.Sprintf("after resizing to %v blocks, step %d", sizes[s], n)
						if sizes[s] == 1 && n == 0 { // the boundary write would erase the mark
							r := i.Exec(0, h.C10(0x28, 0, 0, 1), len(mark), true, nil)
							if !r.Good() || !bytes.Equal(r.Data, mark) {
								k.Fail("resize-lost", "%s: block 0 reads %v", what, r)
							}
						}
						capacity(k, i, 0, sizes[s], shift, false, what)
						k.State(fmt.Sprint("resize", sizes[s], shift))
					}
					j := w.Session(1, 0)
					if j == nil {
						k.Fail("no-session", "cannot log in after the resize")
						return
					}
					capacity(k, j, 0, sizes[seq[len(seq)-1]], shift, false, "a session opened after the resizes")
					if r := i.Exec(0, h.C10(0x28, 0, 0, 1), len(mark), true, nil); !bytes.Contains([]byte(fmt.Sprint(seq)), []byte("0")) && (!r.Good() || !bytes.Equal(r.Data, mark)) {
						k.Fail("resize-lost", "block 0 after the resizes %v: %v", seq, r)
					}
					k.crashes(w, "crash")
				})
			}
		}
		if len(seq) < depth {
			for s := range sizes {
				rec(append(append([]int{}, seq...), s))
			}
		}
	}
	rec(nil)
}
