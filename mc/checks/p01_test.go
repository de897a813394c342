package checks

import (
	"bytes"
	"fmt"
	"strings"

	"verifmc/h"
)

// disk is the reference model: a flat array of bytes.
type disk struct {
	b     []byte
	shift uint
}

func (d *disk) write(lba, n uint64, data []byte) { copy(d.b[lba<<d.shift:], data[:n<<d.shift]) }
func (d *disk) read(lba, n uint64) []byte        { return d.b[lba<<d.shift : (lba+n)<<d.shift] }

// rwop is a letter of the alphabet: a write by some variant, or a read.
type rwop struct {
	name string
	rw   h.RW
	b1   byte
	lba  uint64
	n    uint64
	tag  byte
	wr   bool
	imm  int // immediate data limit
}

func (o rwop) String() string {
	return fmt.Sprintf("%s b1=%02x %d+%d tag=%02x imm=%d", o.rw.Name, o.b1, o.lba, o.n, o.tag, o.imm)
}

// doRW performs o on the wire and against the model, and reports the first disagreement.
func doRW(k *Case, w *h.World, i *h.Ini, ti int, lun uint64, d *disk, o rwop, seq uint64) bool {
	k.Op(1)
	bs := uint64(1) << d.shift
	if o.wr {
		data := h.Fill(int(o.n*bs), o.tag)
		old := i.ImmLimit
		if o.imm >= 0 {
			i.ImmLimit = o.imm
		}
		r := i.Exec(lun, o.rw.CDB(o.b1, o.lba, o.n), len(data), false, data)
		i.ImmLimit = old
		if !r.Good() || r.Problem != "" {
			k.Fail("write-refused "+o.rw.Name, "%v: %v", o, r)
			return false
		}
		d.write(o.lba, o.n, data)
		return true
	}
	r := i.Exec(lun, o.rw.CDB(o.b1, o.lba, o.n), int(o.n*bs), true, nil)
	if !r.Good() || r.Problem != "" {
		k.Fail("read-refused "+o.rw.Name, "%v: %v", o, r)
		return false
	}
	want := d.read(o.lba, o.n)
	if !bytes.Equal(r.Data, want) {
		k.Fail("stale-read "+o.rw.Name, "%v: read %s, last written %s", o, blocks(r.Data, d.shift), blocks(want, d.shift))
		return false
	}
	return true
}

// blocks names the content of each block by tag and position.
func blocks(b []byte, shift uint) string {
	var s []string
	bs := 1 << shift
	for i := 0; i < len(b); i += bs {
		e := i + bs
		if e > len(b) {
			e = len(b)
		}
		x := b[i:e]
		if bytes.Count(x, []byte{0}) == len(x) {
			s = append(s, "0")
		} else {
			s = append(s, fmt.Sprintf("%.11q", x[:min(11, len(x))]))
		}
		if len(s) > 12 {
			s = append(s, "...")
			break
		}
	}
	return fmt.Sprintf("%d bytes [%s]", len(b), strings.Join(s, " "))
}

func checkMedium(k *Case, w *h.World, ti int, lun uint64, d *disk, what string) bool {
	got := w.Medium(ti, lun)
	k.State(fmt.Sprintf("%x", hash(string(got))))
	if !bytes.Equal(got, d.b) {
		k.Fail("medium "+what, "medium is %s, model says %s", blocks(got, d.shift), blocks(d.b, d.shift))
		return false
	}
	return true
}

func init() {
	reg("P01", "model_checking",
		"every sequence of writes, WRITE SAME, ORWRITE and UNMAP up to the depth over all extents of a small medium, each followed by reads by every read command; every write and read command at every single-bit block address of a large medium; every transfer size around the segment, burst and count limits; a state is the content of the medium",
		p01, "one initiator; the backing stores behave as specified (file store: the kernel's page cache)")
}

func p01(c *Ctx) {
	p01mix(c)
	type conf struct {
		kind  string
		shift uint
		nb    int
		extra int
	}
	confs := []conf{{"vmem", 9, 4, 0}, {"file", 9, 4, 0}, {"RemBs", 9, 4, 0}, {"vmem", 12, 3, 0}, {"file", 12, 3, 512}, {"vmem", 9, 4, 100}}
	extents := func(nb int) (e [][2]uint64) {
		for l := 0; l < nb; l++ {
			for n := 1; l+n <= nb; n++ {
				e = append(e, [2]uint64{uint64(l), uint64(n)})
			}
		}
		return
	}
	run := func(cf conf, id string, ops []rwop, full bool) {
		c.Case(id, func(k *Case) {
			w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Kind: cf.kind, Blocks: cf.nb, Extra: cf.extra, Shift: cf.shift}))
			defer w.End()
			i := w.Session(0, 0)
			if i == nil {
				k.Fail("no-session", "cannot log in")
				return
			}
			d := &disk{make([]byte, cf.nb<<cf.shift+cf.extra), cf.shift}
			for n, o := range ops {
				if !doRW(k, w, i, 0, 0, d, o, uint64(n)) || !checkMedium(k, w, 0, 0, d, "after "+o.rw.Name) {
					return
				}
				if full {
					for _, r := range h.Reads {
						if !doRW(k, w, i, 0, 0, d, rwop{rw: r, lba: 0, n: uint64(cf.nb), imm: -1}, 0) {
							return
						}
					}
				}
			}
			for _, r := range h.Reads {
				for _, e := range extents(cf.nb) {
					if !doRW(k, w, i, 0, 0, d, rwop{rw: r, lba: e[0], n: e[1], imm: -1}, 0) {
						return
					}
				}
			}
			k.crashes(w, "crash")
		})
	}
	for _, cf := range confs {
		var alpha []rwop
		for _, rw := range h.Writes {
			b1s := []byte{0}
			if rw.Size > 6 {
				b1s = []byte{0, 0x08, 0x10} // plain, FUA, DPO
			}
			for _, b1 := range b1s {
				for _, e := range extents(cf.nb) {
					alpha = append(alpha, rwop{rw: rw, b1: b1, lba: e[0], n: e[1], wr: true, imm: -1})
				}
			}
		}
		base := fmt.Sprintf("%s/%d/%d+%d", cf.kind, cf.shift, cf.nb, cf.extra)
		for ai, a := range alpha {
			a.tag = 0xa1
			for _, imm := range []int{0, 512, 65536} {
				a.imm = imm
				run(cf, fmt.Sprintf("%s/1/%d/imm%d", base, ai, imm), []rwop{a}, true)
			}
		}
		// depth 2 and 3 over a reduced alphabet: every command once per extent
		var small []rwop
		for wi, rw := range h.Writes {
			for ei, e := range extents(cf.nb) {
				if !c.Thorough() && (wi+ei)%2 != 0 && cf.kind != "vmem" {
					continue
				}
				small = append(small, rwop{rw: rw, lba: e[0], n: e[1], wr: true, imm: []int{-1, 0, 512}[(wi+ei)%3]})
			}
		}
		if cf.extra != 0 && !c.Thorough() {
			continue
		}
		for ai, a := range small {
			a.tag = 0xa1
			for bi, b := range small {
				b.tag = 0xb2
				run(cf, fmt.Sprintf("%s/2/%d/%d", base, ai, bi), []rwop{a, b}, false)
			}
		}
		var tiny []rwop
		for ei, e := range extents(cf.nb) {
			if c.Thorough() || ei%2 == 0 {
				tiny = append(tiny, rwop{rw: h.Writes[ei%len(h.Writes)], lba: e[0], n: e[1], wr: true, imm: -1})
			}
		}
		if cf.kind == "vmem" || c.Thorough() {
			for ai, a := range tiny {
				a.tag = 1
				for bi, b := range tiny {
					b.tag = 2
					for ci, d := range tiny {
						d.tag = 3
						run(cf, fmt.Sprintf("%s/3/%d/%d/%d", base, ai, bi, ci), []rwop{a, b, d}, false)
					}
				}
			}
		}
	}
	// the same content whatever the transfer size: lengths around every segment, burst and count boundary
	sizes := []int{1, 2, 15, 16, 17, 127, 128, 129, 255, 256, 257, 511, 512, 513, 640}
	if c.Thorough() {
		sizes = append(sizes, 1023, 1024, 1025, 1280, 2049)
	}
	for _, n := range sizes {
		for wi, rw := range h.Writes {
			if uint64(n) > rw.MaxN {
				continue
			}
			for _, imm := range []int{0, 8192, 65536} {
				for _, seg := range []int{512, 8192, 65536} {
					if !c.Thorough() && (wi+imm/8192+seg/512)%3 != 0 {
						continue
					}
					id := fmt.Sprintf("size/%d/%d/imm%d/seg%d", n, wi, imm, seg)
					c.Case(id, func(k *Case) {
						w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Blocks: n + 3}))
						defer w.End()
						i := w.Session(0, 0)
						if i == nil {
							k.Fail("no-session", "cannot log in")
							return
						}
						i.Seg = seg
						d := &disk{make([]byte, (n+3)<<9), 9}
						for lba := uint64(0); lba < 4; lba += 3 {
							if !doRW(k, w, i, 0, 0, d, rwop{rw: rw, lba: lba, n: uint64(n), tag: 0x40 + byte(lba), wr: true, imm: imm}, 0) || !checkMedium(k, w, 0, 0, d, "after "+rw.Name) {
								return
							}
							for _, r := range h.Reads {
								if uint64(n) <= r.MaxN && !doRW(k, w, i, 0, 0, d, rwop{rw: r, lba: lba, n: uint64(n), imm: -1}, 0) {
									return
								}
							}
						}
						k.crashes(w, "crash")
					})
				}
			}
		}
	}
}

// p01mix mixes every way of changing a block: all sequences over all extents.
func p01mix(c *Ctx) {
	for _, kind := range []string{"vmem", "file", "RemBs"} {
		const nb, shift = 3, 9
		var alpha []stepOp
		for _, o := range stepOps(c) {
			if !o.writes() || o.b1 != 0 || o.Name == "WRITE(12)" || o.Name == "WRITE AND VERIFY(12)" {
				continue
			}
			for l := uint64(0); l < nb; l++ {
				for n := uint64(1); l+n <= nb; n++ {
					if o.kind == "write" && n == 2 && l == 1 {
						continue
					}
					o.lba, o.n = l, n
					alpha = append(alpha, o)
				}
			}
		}
		run := func(id string, ops ...stepOp) {
			c.Case(id, func(k *Case) {
				w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Kind: kind, Blocks: nb, Thin: true}))
				defer w.End()
				i := w.Session(0, 0)
				if i == nil {
					k.Fail("no-session", "cannot log in")
					return
				}
				d := &disk{h.Fill(nb<<shift, 0x11), shift}
				w.SetMedium(0, 0, d.b)
				for n, o := range ops {
					o.tag = byte(0x21 + 0x20*n)
					r, want := o.exec(i, 0, d.b, shift)
					k.Op(1)
					k.Logf("%v", o)
					if !r.Good() || r.Problem != "" {
						k.Fail("refused "+o.Name, "%v: %v", o, r)
						return
					}
					if o.kind == "unmap" { // each block keeps its content or reads as zeros
						got := w.Medium(0, 0)
						for b := o.lba << shift; b < (o.lba+o.n)<<shift; b += 1 << shift {
							if x := got[b : b+1<<shift]; bytes.Count(x, []byte{0}) == len(x) {
								copy(d.b[b:], x)
							}
						}
					} else {
						copy(d.b[o.lba<<shift:], want)
					}
					if !checkMedium(k, w, 0, 0, d, "after "+o.Name) {
						return
					}
					for _, r := range h.Reads {
						if !doRW(k, w, i, 0, 0, d, rwop{rw: r, lba: 0, n: nb, imm: -1}, 0) {
							return
						}
					}
				}
				k.crashes(w, "crash")
			})
		}
		for ai, a := range alpha {
			run(fmt.Sprintf("mix/%s/%d", kind, ai), a)
			for bi, b := range alpha {
				if c.Thorough() || kind == "vmem" || (ai+bi)%3 == 0 {
					run(fmt.Sprintf("mix/%s/%d/%d", kind, ai, bi), a, b)
				}
				if c.Thorough() && kind == "vmem" {
					for di, d := range alpha {
						if (ai+bi+di)%4 == 0 {
							run(fmt.Sprintf("mix/%s/%d/%d/%d", kind, ai, bi, di), a, b, d)
						}
					}
				}
			}
		}
	}
	// every address bit: a write at one single-bit address is seen there and at no other
	const big = 1 << 34
	addrs := []uint64{0, 3}
	for b := uint(0); b < 34; b++ {
		addrs = append(addrs, 1<<b)
	}
	addrs = append(addrs, 1<<32-1, big-2)
	for wi, rw := range h.Writes {
		for si, a := range addrs {
			if a > rw.Max {
				continue
			}
			c.Case(fmt.Sprintf("addr/%d/%d", wi, si), func(k *Case) {
				w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Blocks: big, Sparse: true}))
				defer w.End()
				i := w.Session(0, 0)
				if i == nil {
					k.Fail("no-session", "cannot log in")
					return
				}
				m := w.Stores["0/0"]
				n := uint64(1 + wi%2)
				data := h.Fill(int(n)<<9, 0x77)
				r := i.Exec(0, rw.CDB(0, a, n), len(data), false, data)
				k.Op(1)
				if !r.Good() || r.Problem != "" {
					k.Fail("refused "+rw.Name, "%s at %#x: %v", rw.Name, a, r)
					return
				}
				k.State(fmt.Sprint(rw.Name, a))
				bytesAt := map[uint64]bool{}
				for p, pg := range m.Touched() {
					for o := 0; o < 4096; o += 512 {
						if bytes.Count(pg[o:o+512], []byte{0}) != 512 {
							bytesAt[(uint64(p)<<12+uint64(o))>>9] = true
						}
					}
				}
				for b := range bytesAt {
					if b < a || b >= a+n {
						k.Fail("elsewhere "+rw.Name, "%s at %#x+%d changed block %#x", rw.Name, a, n, b)
					}
				}
				for _, rd := range h.Reads {
					for _, x := range addrs {
						if x > rd.Max || x < a && x+1 > a {
							continue
						}
						r := i.Exec(0, rd.CDB(0, x, 1), 512, true, nil)
						k.Op(1)
						want := make([]byte, 512)
						if x >= a && x < a+n {
							want = data[(x-a)<<9 : (x-a+1)<<9]
						}
						if !r.Good() || !bytes.Equal(r.Data, want) {
							k.Fail("address "+rd.Name, "%s at %#x+%d, then %s at %#x: %v", rw.Name, a, n, rd.Name, x, r)
							return
						}
					}
				}
				k.crashes(w, "crash")
			})
		}
	}
}
