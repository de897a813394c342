package checks

import (
	"bytes"
	"fmt"

	"verifmc/h"
)

func init() {
	reg("P25", "exploration", "every position of a difference, form of delivery, kind of store and block size for each VERIFY; every operation code and service action with several parameter lists; every history of writes and VERIFYs to the depth",
		p25, "media of at most four blocks, one command at a time")
}

const miscompare = 0x1d00

// p25unit brings up a unit with the content it returns.
func p25unit(kind string, nb int, shift uint, thin bool) (*h.World, []byte) {
	w := h.NewWorld(h.Cfg{Targets: []h.Target{{LUNs: []h.LUN{{LUN: 0, Kind: kind, Blocks: nb, Shift: shift, Thin: thin, Online: true}, {LUN: 1, Blocks: 2, Online: true}}}}})
	init := h.Fill(nb<<shift, 0x3c)
	w.SetMedium(0, 0, init)
	return w, init
}

func p25(c *Ctx) {
	type delivery struct {
		name     string
		imm, seg int
	}
	deliveries := []delivery{{"immediate", -1, 0}, {"r2t", 0, 0}, {"mixed", 300, 0}, {"pieces", 100, 300}}
	for _, kind := range []string{"vmem", "file", "RemBs"} {
		for _, shift := range []uint{9, 12} {
			for oi, op := range h.Verifies {
				for n := uint64(1); n <= 3; n++ {
					if shift == 12 && n != 1 && !c.Thorough() {
						continue
					}
					for di, d := range deliveries {
						if !c.Thorough() && (di != 0 && (oi != 0 || kind != "vmem" || n == 3) || kind != "vmem" && n == 2) {
							continue
						}
						c.Case(fmt.Sprintf("position/%s/%d/%s/%d/%s", kind, shift, op.Name, n, d.name), func(k *Case) {
							w, init := p25unit(kind, 4, shift, false)
							defer w.End()
							i := w.Session(0, 0)
							if i == nil {
								k.Fail("no-session", "cannot log in")
								return
							}
							if d.imm >= 0 {
								i.ImmLimit = d.imm
							}
							if d.seg > 0 {
								i.Seg = d.seg
							}
							bs := uint64(1) << shift
							for lba := uint64(0); lba <= 4-n; lba += 4 - n {
								right := init[lba*bs : (lba+n)*bs]
								for pos := -1; pos < len(right); pos++ {
									if lba > 0 && pos >= 0 && pos%int(bs) > 8 && pos%int(bs) < int(bs)-8 && !c.Thorough() {
										continue
									}
									out := append([]byte{}, right...)
									if pos >= 0 {
										out[pos] ^= 1 << (pos % 8)
									}
									r := i.Exec(0, op.CDB(2, lba, n), len(out), false, out)
									k.Op(1)
									if k.crashes(w, "crash") {
										return
									}
									if pos < 0 && !r.Good() {
										k.Fail("equal-refused "+op.Name, "%s of %d blocks at %d with the data of the medium: %v", op.Name, n, lba, r)
									}
									if pos >= 0 && !r.Check(0xe, miscompare) {
										k.Fail("difference-missed "+op.Name, "%s of %d blocks at %d with byte %d different: %v", op.Name, n, lba, pos, r)
									}
									if k.Failed() {
										return
									}
								}
								// the right bytes in the wrong places, and differences that cancel out
								for pos := range right {
									for _, d := range []int{1, 2, 4, 8, 16, 256, int(bs)} {
										if pos+d >= len(right) || right[pos] == right[pos+d] || pos%37 != 0 && !c.Thorough() {
											continue
										}
										for v := 0; v < 3; v++ {
											out := append([]byte{}, right...)
											switch v {
											case 0:
												out[pos], out[pos+d] = out[pos+d], out[pos]
											case 1:
												out[pos] ^= 0x10
												out[pos+d] ^= 0x10
											case 2:
												out[pos]++
												out[pos+d]--
											}
											r := i.Exec(0, op.CDB(2, lba, n), len(out), false, out)
											k.Op(1)
											if !r.Check(0xe, miscompare) {
												k.Fail("difference-missed "+op.Name, "%s of %d blocks at %d with bytes %d and %d different: %v", op.Name, n, lba, pos, pos+d, r)
												return
											}
										}
									}
								}
							}
							if !bytes.Equal(w.Medium(0, 0), init) {
								k.Fail("medium-changed", "%s changed the medium", op.Name)
							}
							k.State("position " + op.Name + fmt.Sprint(n))
						})
					}
				}
			}
		}
	}
	// data that is not there cannot be equal
	for _, op := range h.Verifies {
		for n := uint64(0); n <= 3; n++ {
			for _, dpo := range []byte{0, 0x10} {
				c.Case(fmt.Sprintf("length/%s/%d/%x", op.Name, n, dpo), func(k *Case) {
					w, init := p25unit("vmem", 4, 9, false)
					defer w.End()
					i := w.Session(0, 0)
					exact := int(n) * 512
					for lba := uint64(0); lba+n <= 4 && lba < 4; lba++ {
						for _, l := range []int{0, 1, 511, 512, 513, 1023, 1024, 1025, 1535, 1536} {
							if l > exact {
								continue
							}
							out := append([]byte{}, init[lba*512:]...)[:l]
							r := i.Exec(0, op.CDB(2|dpo, lba, n), l, false, out)
							k.Op(1)
							if k.crashes(w, "crash") {
								return
							}
							if good := l == exact; n > 0 && r.Good() != good {
								k.Fail("length "+op.Name, "%s of %d blocks at %d with %d bytes equal to the medium: %v", op.Name, n, lba, l, r)
							}
							if !r.Good() && r.Status != 2 {
								k.Fail("status", "%v", r)
							}
							k.State(fmt.Sprintf("length %d %d %x", n, l, r.Status))
						}
						// no comparison asked for
						if r := i.Exec(0, op.CDB(dpo, lba, n), 0, false, nil); !r.Good() {
							k.Fail("refused "+op.Name, "%s of %d blocks at %d without comparison: %v", op.Name, n, lba, r)
						}
					}
					if !bytes.Equal(w.Medium(0, 0), init) {
						k.Fail("medium-changed", "%s changed the medium", op.Name)
					}
				})
			}
		}
	}
	p25others(c)
	p25histories(c)
}

// p25writes are the operation codes that are meant to change the medium (or, FORMAT UNIT, may).
var p25writes = map[byte]bool{0x04: true, 0x0a: true, 0x2a: true, 0xaa: true, 0x8a: true, 0x2e: true, 0xae: true, 0x8e: true, 0x41: true, 0x93: true, 0x8b: true, 0x42: true}

// p25others sends every other command, with every value of the second byte.
func p25others(c *Ctx) {
	for op := 0; op < 256; op++ {
		if p25writes[byte(op)] {
			continue
		}
		for _, kind := range []string{"vmem", "file"} {
			if kind == "file" && !c.Thorough() && op%16 != 0xf && op != 0x35 && op != 0x91 && op != 0x28 && op != 0x15 && op != 0x55 {
				continue
			}
			c.Case(fmt.Sprintf("others/%s/%02x", kind, op), func(k *Case) {
				w, init := p25unit(kind, 4, 9, true)
				defer w.End()
				i := w.Session(0, 0)
				other := w.Medium(0, 1)
				for b1 := 0; b1 < 256; b1++ {
					if b1 >= 32 && b1&31 != 0 {
						continue
					}
					for _, out := range [][]byte{nil, make([]byte, 24), bytes.Repeat([]byte{0xff}, 24), h.Fill(512, 0x99), append([]byte{0, 22, 0, 16, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 2}, make([]byte, 4)...)} {
						cdb := make([]byte, 16)
						cdb[0], cdb[1] = byte(op), byte(b1)
						switch n := byte(len(out)); {
						case op < 0x20:
							cdb[4] = n
						case op < 0x60:
							cdb[5], cdb[8] = 1, n
							if len(out) == 512 {
								cdb[8] = 1
							}
						case op < 0xa0:
							cdb[9], cdb[13] = 1, n
							if len(out) == 512 {
								cdb[13] = 1
							}
						default:
							cdb[5], cdb[9] = 1, n
							if len(out) == 512 {
								cdb[9] = 1
							}
						}
						r := i.Exec(0, cdb, len(out), false, out)
						k.Op(1)
						if k.crashes(w, "crash") {
							return
						}
						if !bytes.Equal(w.Medium(0, 0), init) || !bytes.Equal(w.Medium(0, 1), other) {
							k.Fail(fmt.Sprintf("medium-changed %02x", op), "cdb %x with %d bytes of data (%v) changed the medium", cdb, len(out), r)
							return
						}
						if !r.Got || r.Closed { // what is left is for other checks
							i = w.Session(0, 0)
						}
						k.State(fmt.Sprintf("other %02x %02x", op, r.Status))
					}
				}
				// a reservation, persistent or not, may be left behind: it is this session's own
				if x := i.Exec(0, h.Verifies[0].CDB(2, 0, 4), 2048, false, init); !x.Good() && x.Status != 0x18 {
					k.Fail("verify-afterwards", "VERIFY with the data of the medium afterwards: %v", x)
				}
			})
		}
	}
}

// p25histories runs all sequences of writes and compares the outcome by VERIFY, on another session of another target.
func p25histories(c *Ctx) {
	type step struct {
		name string
		do   func(i *h.Ini, m []byte) *h.Result
	}
	var steps []step
	for lba := uint64(0); lba < 3; lba++ {
		lba := lba
		steps = append(steps, step{fmt.Sprintf("w%d", lba), func(i *h.Ini, m []byte) *h.Result {
			d := h.Fill(512, byte(0x80+lba))
			copy(m[lba*512:], d)
			return i.Exec(0, h.Writes[1].CDB(0, lba, 1), 512, false, d)
		}})
	}
	steps = append(steps,
		step{"v01", func(i *h.Ini, m []byte) *h.Result {
			d := h.Fill(1024, 0x55)
			copy(m, d)
			return i.Exec(0, h.Writes[4].CDB(2, 0, 2), 1024, false, d)
		}},
		step{"same12", func(i *h.Ini, m []byte) *h.Result {
			d := h.Fill(512, 0x33)
			copy(m[512:], d)
			copy(m[1024:], d)
			return i.Exec(0, h.WriteSames[0].CDB(0, 1, 2), 512, false, d)
		}},
		step{"or1", func(i *h.Ini, m []byte) *h.Result {
			d := h.Fill(512, 0x0f)
			for j := range d {
				m[512+j] |= d[j]
			}
			return i.Exec(0, h.OrWrite.CDB(0, 1, 1), 512, false, d)
		}})
	depth := 3
	if c.Thorough() {
		depth = 4
	}
	for _, kind := range []string{"vmem", "file"} {
		total := 1
		for d := 0; d < depth; d++ {
			total *= len(steps)
		}
		for s := 0; s < total; s++ {
			c.Case(fmt.Sprintf("history/%s/%d", kind, s), func(k *Case) {
				u := h.LUN{LUN: 0, Kind: kind, Blocks: 3, Dev: 7, Online: true}
				w := h.NewWorld(h.Cfg{Targets: []h.Target{{LUNs: []h.LUN{u}}, {LUNs: []h.LUN{u}}}})
				defer w.End()
				m := h.Fill(3*512, 0x3c)
				w.SetMedium(0, 0, m)
				m = append([]byte{}, m...)
				a, b := w.Session(0, 0), w.Session(1, 1)
				if a == nil || b == nil {
					k.Fail("no-session", "cannot log in")
					return
				}
				for x, d := s, 0; d < depth; d++ {
					st := steps[x%len(steps)]
					x /= len(steps)
					before := append([]byte{}, m...)
					if r := st.do(a, m); !r.Good() {
						k.Fail("write-refused", "%s: %v", st.name, r)
						return
					}
					k.Op(1)
					for _, i := range []*h.Ini{a, b} {
						for oi, op := range h.Verifies {
							for lba := uint64(0); lba < 3; lba++ {
								for n := uint64(1); lba+n <= 3; n++ {
									if oi > 0 && n != 2 {
										continue
									}
									now, was := m[lba*512:(lba+n)*512], before[lba*512:(lba+n)*512]
									r := i.Exec(0, op.CDB(2, lba, n), len(now), false, now)
									if !r.Good() {
										k.Fail("equal-refused", "after %s, %s of %d blocks at %d: %v", st.name, op.Name, n, lba, r)
									}
									if !bytes.Equal(now, was) {
										if r := i.Exec(0, op.CDB(2, lba, n), len(was), false, was); !r.Check(0xe, miscompare) {
											k.Fail("difference-missed", "after %s, %s of %d blocks at %d with the old data: %v", st.name, op.Name, n, lba, r)
										}
									}
									k.Op(2)
									if k.Failed() {
										return
									}
								}
							}
						}
					}
				}
				if k.crashes(w, "crash") {
					return
				}
				if !bytes.Equal(w.Medium(0, 0), m) {
					k.Fail("medium-changed", "VERIFY changed the medium")
				}
				k.State(fmt.Sprintf("%x", hash(string(m))))
			})
		}
	}
}
