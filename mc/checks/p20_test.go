package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"verifmc/h"
)

func init() {
	reg("P20", "model_checking",
		"every operation code x every single CDB byte over boundary and single-bit values (thorough: every value, and pairs) x no, read and write direction with several data lengths x a disk, a thin disk, an offline disk and an absent unit; oracle: exactly one well-formed status with well-formed sense data, residual arithmetic, no data with an error, and the unit still serves; a state is (opcode, unit, outcome)",
		p20)
}

// implemented lists the operation codes of a disk of this target.
var implemented = map[byte]bool{0x00: true, 0x03: true, 0x04: true, 0x08: true, 0x0a: true, 0x12: true, 0x15: true, 0x16: true, 0x17: true, 0x1a: true, 0x1b: true, 0x1d: true, 0x1e: true,
	0x25: true, 0x28: true, 0x2a: true, 0x2e: true, 0x2f: true, 0x34: true, 0x35: true, 0x41: true, 0x42: true, 0x55: true, 0x5a: true, 0x5e: true, 0x5f: true,
	0x88: true, 0x8a: true, 0x8b: true, 0x8e: true, 0x8f: true, 0x90: true, 0x91: true, 0x93: true, 0x9e: true, 0xa0: true, 0xa3: true, 0xa8: true, 0xaa: true, 0xae: true, 0xaf: true}

// wellFormed checks what every SCSI response has to satisfy.
func wellFormed(k *Case, r *h.Result, edtl int, rd bool, what string) bool {
	op := what
	if len(op) > 12 {
		op = op[:12]
	}
	bad := func(key, f string, a ...any) bool {
		k.Fail(key+" "+op, "%s: %s: %v", what, fmt.Sprintf(f, a...), r)
		return false
	}
	if !r.Got {
		return bad("no-status", "no status")
	}
	if r.Problem != "" || r.Closed {
		return bad("protocol", "protocol")
	}
	if r.Response != 0 {
		return bad("response", "iSCSI response %02x", r.Response)
	}
	switch r.Status {
	case 0, 0x18:
		if len(r.Sense) != 0 {
			return bad("sense-with-good", "status %02x with sense data", r.Status)
		}
	case 2:
		if len(r.Sense) < 18 || r.SenseLen != len(r.Sense) || r.Sense[0] != 0x70 || int(r.Sense[7]) != len(r.Sense)-8 || r.Key() == 0 {
			return bad("sense", "malformed sense data %x (length field %d)", r.Sense, r.SenseLen)
		}
	default:
		return bad("status", "status %02x", r.Status)
	}
	if r.Status != 0 && len(r.Data) > 0 {
		return bad("data-with-error", "data with an error")
	}
	if !rd && len(r.Data) > 0 {
		return bad("data", "data for a command that reads nothing")
	}
	if r.Over && r.Under {
		return bad("residual", "both residual flags")
	}
	if r.Status != 0 {
		if r.Over || r.Under && int(r.Resid) != edtl {
			return bad("residual", "residual of no data in %d", edtl)
		}
	} else if rd {
		switch {
		case r.Under && int(r.Resid) != edtl-len(r.Data), r.Over && (len(r.Data) != edtl || r.Resid == 0), !r.Under && !r.Over && len(r.Data) != edtl:
			return bad("residual", "residual of %d bytes in %d", len(r.Data), edtl)
		}
	}
	return true
}

func p20(c *Ctx) {
	vals := []byte{0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x0a, 0x1f, 0x3f, 0x7f, 0xff}
	if c.Thorough() {
		vals = nil
		for v := 0; v < 256; v++ {
			vals = append(vals, byte(v))
		}
	}
	dirs := []struct {
		rd   bool
		edtl int
	}{{false, 0}, {true, 0}, {true, 5}, {true, 512}, {true, 4096}, {false, 512}, {false, 4096}}
	for op := 0; op < 256; op++ {
		for unit := 0; unit < 4; unit++ {
			for di, d := range dirs {
				c.Case(fmt.Sprintf("op/%02x/u%d/d%d", op, unit, di), func(k *Case) {
					luns := []h.LUN{{LUN: 1, Blocks: 8}, {LUN: 2, Blocks: 8, Thin: true}, {LUN: 3, Blocks: 8, Off: true}}
					if unit != 3 {
						luns = append(luns, h.LUN{LUN: 0, Blocks: 8})
					}
					w := h.NewWorld(h.Simple(luns...))
					defer w.End()
					i := w.Session(0, 0)
					if i == nil {
						k.Fail("no-session", "cannot log in")
						return
					}
					lun := []uint64{1, 2, 3, 0}[unit]
					var out []byte
					if !d.rd && d.edtl > 0 {
						out = make([]byte, d.edtl)
					}
					one := func(cdb []byte) bool {
						r := i.Exec(lun, cdb, d.edtl, d.rd, out)
						k.Op(1)
						k.State(fmt.Sprint(op, unit, r.Status, r.Key(), r.ASC(), len(r.Data)))
						what := fmt.Sprintf("opcode %02x cdb %x unit %d edtl %d read=%v", op, cdb, lun, d.edtl, d.rd)
						if k.crashes(w, fmt.Sprintf("crash %02x", op)) {
							return false
						}
						if !wellFormed(k, r, d.edtl, d.rd, what) {
							return r.Got && !r.Closed
						}
						if !implemented[byte(op)] && !r.Check(5, 0x2000) {
							k.Fail(fmt.Sprintf("opcode %02x", op), "%s: %v", what, r)
						}
						if implemented[byte(op)] && r.Check(5, 0x2000) {
							k.Fail(fmt.Sprintf("opcode-missing %02x", op), "%s: %v", what, r)
						}
						return true
					}
					cdb := make([]byte, 16)
					cdb[0] = byte(op)
				all:
					for p := 1; p < 16; p++ {
						for _, v := range vals {
							if v == 0 && p > 1 {
								continue
							}
							x := append([]byte{}, cdb...)
							x[p] = v
							if !one(x) {
								break all
							}
							if c.Thorough() && implemented[byte(op)] && v&(v-1) == 0 {
								for q := p + 1; q < 10; q++ {
									x[q] = 1
									if !one(x) {
										break all
									}
									x[q] = 0
								}
							}
						}
					}
					r := i.Exec(2, h.C10(0x28, 0, 7, 1), 512, true, nil)
					if !r.Good() || len(r.Data) != 512 {
						k.Fail(fmt.Sprintf("then-read %02x", op), "after opcode %02x: READ %v", op, r)
					}
				})
			}
		}
	}
}

func init() {
	reg("P21", "model_checking",
		"every data-in command with an allocation length (INQUIRY and every VPD page, MODE SENSE(6/10) with every page and page control, READ CAPACITY(16), REPORT LUNS, REQUEST SENSE, REPORT SUPPORTED OPERATION CODES) x every allocation length from 0 past the full answer x several expected data lengths; oracle: the prefix of the full answer that fits, with its length fields unchanged; a state is (command, length returned)",
		p21)
}

func p21(c *Ctx) {
	type din struct {
		name string
		cdb  func(alloc int) []byte
		max  int
		min  int // shorter allocation lengths may be refused
	}
	put := func(b []byte, off, n int, v int) []byte {
		for x := n - 1; x >= 0; x-- {
			b[off+x] = byte(v)
			v >>= 8
		}
		return b
	}
	var l []din
	l = append(l, din{"INQUIRY", func(a int) []byte { return h.Inquiry(false, 0, uint16(a)) }, 65535, 0})
	for _, pg := range []byte{0, 0x80, 0x83, 0xb0, 0xb2} {
		l = append(l, din{fmt.Sprintf("INQUIRY VPD %02x", pg), func(a int) []byte { return h.Inquiry(true, pg, uint16(a)) }, 65535, 0})
	}
	for _, pc := range []byte{0, 1, 2} {
		for _, pg := range [][2]byte{{2, 0}, {8, 0}, {0x0a, 0}, {0x0a, 1}, {0x1c, 0}, {0x3f, 0}} {
			for _, dbd := range []bool{false, true} {
				l = append(l, din{fmt.Sprintf("MODE SENSE(6) %d/%02x/%02x/%v", pc, pg[0], pg[1], dbd), func(a int) []byte { return h.ModeSense6(pc, pg[0], pg[1], byte(a), dbd) }, 255, 0})
				l = append(l, din{fmt.Sprintf("MODE SENSE(10) %d/%02x/%02x/%v", pc, pg[0], pg[1], dbd), func(a int) []byte { return h.ModeSense10(pc, pg[0], pg[1], uint16(a), dbd) }, 65535, 0})
			}
		}
	}
	l = append(l, din{"READ CAPACITY(16)", func(a int) []byte { return h.ReadCap16(uint32(a)) }, 1 << 30, 0},
		din{"REPORT LUNS", func(a int) []byte { return h.ReportLuns(uint32(a)) }, 1 << 30, 16},
		din{"REQUEST SENSE", func(a int) []byte { return []byte{3, 0, 0, 0, byte(a), 0} }, 255, 0},
		din{"REPORT SUPPORTED OPERATION CODES", func(a int) []byte { return put([]byte{0xa3, 0x0c, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 6, 4, a) }, 1 << 30, 0},
		din{"REPORT SUPPORTED OPERATION CODES RCTD", func(a int) []byte {
			return put([]byte{0xa3, 0x0c, 0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 6, 4, a)
		}, 1 << 30, 0})
	for li, d := range l {
		for unit := 0; unit < 3; unit++ {
			c.Case(fmt.Sprintf("%d %s/u%d", li, d.name, unit), func(k *Case) {
				w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Blocks: 8}, h.LUN{LUN: 1, Blocks: 8, Thin: true, Shift: 12}, h.LUN{LUN: 2, Blocks: 4, Off: true}))
				defer w.End()
				i := w.Session(0, 0)
				if i == nil {
					k.Fail("no-session", "cannot log in")
					return
				}
				lun := uint64(unit)
				big := min(d.max, 2048)
				r := i.Exec(lun, d.cdb(big), big, true, nil)
				k.Op(1)
				if !r.Good() || len(r.Data) == 0 {
					k.Fail("refused "+d.name, "%s: %v", d.name, r)
					return
				}
				full := r.Data
				if len(full) == big && big != 255 {
					k.Fail("no-end "+d.name, "%s: %d bytes", d.name, len(full))
				}
				var as []int
				for a := 0; a <= len(full)+9 && a <= d.max; a++ {
					as = append(as, a)
				}
				for _, a := range []int{255, 256, 4096, 65535, 65536, 1 << 24, 1<<30 - 1} {
					if a <= d.max && a > len(full)+9 {
						as = append(as, a)
					}
				}
				for _, a := range as {
					for _, e := range []int{a, a + 4, a - 1, 512, 1, 0} {
						if e < 0 || e > 70000 {
							continue
						}
						r := i.Exec(lun, d.cdb(a), e, true, nil)
						k.Op(1)
						what := fmt.Sprintf("%s alloc %d", d.name, a)
						if !wellFormed(k, r, e, true, fmt.Sprintf("opcode %02x %s", d.cdb(0)[0], what)) {
							return
						}
						if a < d.min && r.Check(5, 0x2400) {
							continue
						}
						n := min(a, len(full), e)
						if !r.Good() || !bytes.Equal(r.Data, full[:n]) {
							k.Fail("prefix "+d.name, "%s edtl %d: %v, want the first %d bytes of %x", what, e, r, n, full)
							return
						}
						k.State(fmt.Sprint(d.name, len(r.Data)))
					}
				}
				k.crashes(w, "crash")
			})
		}
	}
	// READ CAPACITY(10) has no allocation length: the expected length cuts it
	c.Case("READ CAPACITY(10)", func(k *Case) {
		w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Blocks: 8}))
		defer w.End()
		i := w.Session(0, 0)
		if i == nil {
			k.Fail("no-session", "cannot log in")
			return
		}
		full := i.Exec(0, h.ReadCap10(), 8, true, nil).Data
		for e := 0; e < 20; e++ {
			r := i.Exec(0, h.ReadCap10(), e, true, nil)
			k.Op(1)
			if wellFormed(k, r, e, true, "opcode 25") && (!r.Good() || !bytes.Equal(r.Data, full[:min(e, len(full))])) {
				k.Fail("prefix READ CAPACITY(10)", "edtl %d: %v", e, r)
			}
			k.State(fmt.Sprint("rc10", e))
		}
	})
}

func init() {
	reg("P22", "model_checking",
		"every EVPD page code and standard INQUIRY, every mode page code, sub-page code, page control and DBD, on every unit of several configurations (two targets, a device shared by two LUNs and two targets, offline, thin, several portals), on every session, before and after reconnects and resets; oracle: advertised pages exist and no others, page and header lengths add up, device identifiers are equal exactly for the same device and do not change, and agree with READ CAPACITY and the configuration; a state is (page, unit, answer)",
		p22)
}

// p22 checks that what a unit says about itself is well-formed, stable and distinct.
func p22(c *Ctx) {
	cfg := h.Cfg{Targets: []h.Target{
		{Portals: map[uint16][]string{1: {h.Portal, "127.0.0.2:3260"}, 2: {"127.0.0.3:3260"}}, LUNs: []h.LUN{{LUN: 0, Blocks: 8, Dev: 931}, {LUN: 1, Blocks: 8, Dev: 932, Thin: true}, {LUN: 5, Blocks: 8, Dev: 933, Off: true}}},
		{Name: "a-rather-long-target-name-to-push-the-descriptors-around-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789", LUNs: []h.LUN{{LUN: 0, Blocks: 8, Dev: 934}, {LUN: 2, Blocks: 8, Dev: 931}, {LUN: 300, Blocks: 4, Dev: 1 << 40}}}}}
	type unit struct {
		ti   int
		lun  uint64
		dev  uint64
		thin bool
		on   bool
	}
	units := []unit{{0, 0, 931, false, true}, {0, 1, 932, true, true}, {0, 5, 933, false, false}, {1, 0, 934, false, true}, {1, 2, 931, false, true}, {1, 300, 1 << 40, false, true}}
	open := func(k *Case, w *h.World, n, ti int, portal string) *h.Ini {
		i := w.Dial(fmt.Sprintf("10.0.0.%d:%d", n+1, 40000+n), portal)
		if i == nil {
			k.Fail("no-session", "cannot connect to %s", portal)
			return nil
		}
		i.ISID += uint64(n)
		if !i.Login(ti) {
			k.Fail("no-session", "cannot log in to target %d on %s", ti, portal)
			return nil
		}
		return i
	}
	b0 := func(u unit) byte {
		if u.on {
			return 0
		}
		return 0x20
	}
	for ui, u := range units {
		portals := []string{h.Portal}
		if u.ti == 0 {
			portals = []string{h.Portal, "127.0.0.2:3260", "127.0.0.3:3260"}
		}
		for pi, portal := range portals {
			c.Case(fmt.Sprintf("vpd/%d/%d", ui, pi), func(k *Case) {
				w := h.NewWorld(cfg)
				defer w.End()
				i := open(k, w, 0, u.ti, portal)
				if i == nil {
					return
				}
				r := i.Exec(u.lun, h.Inquiry(false, 0, 255), 255, true, nil)
				if !r.Good() || len(r.Data) < 36 || r.Data[0] != b0(u) || int(r.Data[4]) != len(r.Data)-5 || r.Data[3]&0xf != 2 || string(bytes.TrimRight(r.Data[8:16], " ")) != "GOSTOR" {
					k.Fail("inquiry", "unit %+v: %v %q", u, r, r.Data)
				} else if strings.Trim(string(r.Data[16:32]), " ") == "" || strings.IndexFunc(string(r.Data[8:36]), func(c rune) bool { return c < 0x20 || c > 0x7e }) >= 0 {
					k.Fail("inquiry-strings", "unit %+v: vendor, product and revision %q", u, r.Data[8:36])
				}
				pages := map[byte]bool{}
				r = i.Exec(u.lun, h.Inquiry(true, 0, 255), 255, true, nil)
				if r.Good() && len(r.Data) > 4 && int(binary.BigEndian.Uint16(r.Data[2:])) == len(r.Data)-4 {
					last := -1
					for _, p := range r.Data[4:] {
						if int(p) <= last {
							k.Fail("vpd-order", "unit %+v: page list %x", u, r.Data[4:])
						}
						last = int(p)
						pages[p] = true
					}
				} else {
					k.Fail("vpd-list", "unit %+v: %v", u, r)
				}
				for _, must := range []byte{0, 0x80, 0x83, 0xb0, 0xb2} {
					if !pages[must] {
						k.Fail("vpd-missing", "unit %+v does not list VPD page %02x", u, must)
					}
				}
				for p := 0; p < 256; p++ {
					r := i.Exec(u.lun, h.Inquiry(true, byte(p), 1024), 1024, true, nil)
					k.Op(1)
					if !wellFormed(k, r, 1024, true, fmt.Sprintf("opcode 12 page %02x", p)) {
						continue
					}
					if pages[byte(p)] {
						if !r.Good() || len(r.Data) < 4 || r.Data[0] != b0(u) || r.Data[1] != byte(p) || int(binary.BigEndian.Uint16(r.Data[2:])) != len(r.Data)-4 {
							k.Fail(fmt.Sprintf("vpd-page %02x", p), "unit %+v: %v", u, r)
							continue
						}
						k.State(fmt.Sprintf("%d %02x %x", ui, p, hash(string(r.Data[4:]))))
						switch p {
						case 0x83:
							p22ident(k, u.ti, w, u.dev, pi, r.Data[4:])
						case 0xb0:
							if n := binary.BigEndian.Uint32(r.Data[20:]); (n != 0) != u.thin || (binary.BigEndian.Uint32(r.Data[24:]) != 0) != u.thin {
								k.Fail("vpd-limits", "unit %+v: UNMAP limits %x", u, r.Data[20:28])
							}
						case 0xb2:
							if (r.Data[5]&0x80 != 0) != u.thin {
								k.Fail("vpd-provisioning", "unit %+v: %x", u, r.Data)
							}
						}
					} else if !r.Check(5, 0x2400) {
						k.Fail("vpd-unlisted", "unit %+v does not list VPD page %02x but answers %v", u, p, r)
					}
				}
				for p := 1; p < 256; p++ { // a page code without EVPD
					r := i.Exec(u.lun, h.Inquiry(false, byte(p), 255), 255, true, nil)
					k.Op(1)
					if !r.Check(5, 0x2400) {
						k.Fail("page-without-evpd", "page code %02x: %v", p, r)
					}
				}
				r = i.Exec(u.lun, h.TUR(), 0, false, nil)
				if u.on && !r.Good() || !u.on && !(r.Status == 2 && r.Key() == 2) {
					k.Fail("ready", "unit %+v: TEST UNIT READY %v", u, r)
				}
				k.crashes(w, "crash")
			})
		}
		// mode pages
		c.Case(fmt.Sprintf("mode/%d", ui), func(k *Case) {
			w := h.NewWorld(cfg)
			defer w.End()
			i := open(k, w, 0, u.ti, h.Portal)
			if i == nil {
				return
			}
			parse := func(cdb []byte, six bool) (hdr, bd []byte, pages [][]byte) {
				r := i.Exec(u.lun, cdb, 255, true, nil)
				k.Op(1)
				hl := 8
				if six {
					hl = 4
				}
				if !r.Good() || len(r.Data) < hl {
					k.Fail("mode", "%x: %v", cdb, r)
					return nil, nil, nil
				}
				d := r.Data
				total, bl, dsp := 0, 0, byte(0)
				if six {
					total, bl, dsp = int(d[0])+1, int(d[3]), d[2]
				} else {
					total, bl, dsp = int(binary.BigEndian.Uint16(d))+2, int(binary.BigEndian.Uint16(d[6:])), d[3]
				}
				if total != len(d) || hl+bl > len(d) || dsp != 0x10 {
					k.Fail("mode-header", "%x: lengths %d %d of %d, device-specific %02x", cdb, total, bl, len(d), dsp)
					return nil, nil, nil
				}
				hdr, bd = d[:hl], d[hl:hl+bl]
				for d = d[hl+bl:]; len(d) > 0; {
					n := 0
					if len(d) >= 2 && d[0]&0x40 == 0 {
						n = 2 + int(d[1])
					} else if len(d) >= 4 {
						n = 4 + int(binary.BigEndian.Uint16(d[2:]))
					}
					if n == 0 || n > len(d) {
						k.Fail("mode-page-length", "%x: a page of %d bytes in the last %d: %x", cdb, n, len(d), d)
						return nil, nil, nil
					}
					pages = append(pages, d[:n])
					d = d[n:]
				}
				return
			}
			byCode := map[[2]byte][]byte{}
			order := [][2]byte{}
			for pc := byte(0); pc < 3; pc++ {
				_, _, pgs := parse(h.ModeSense6(pc, 0x3f, 0, 255, true), true)
				_, _, pgs10 := parse(h.ModeSense10(pc, 0x3f, 0, 255, true), false)
				if fmt.Sprint(pgs) != fmt.Sprint(pgs10) || len(pgs) == 0 {
					k.Fail("mode-6-10", "page control %d: MODE SENSE(6) %x, MODE SENSE(10) %x", pc, pgs, pgs10)
				}
				for _, pg := range pgs {
					key := [2]byte{pg[0] & 0x3f, 0}
					if pg[0]&0x40 != 0 {
						key[1] = pg[1]
					}
					if pc == 0 {
						order = append(order, key)
						byCode[key] = pg
					} else if len(byCode[key]) != len(pg) {
						k.Fail("mode-page-length", "page %x has %d bytes, %d with page control %d", key, len(byCode[key]), len(pg), pc)
					}
				}
			}
			for _, six := range []bool{true, false} { // with the block descriptor
				cdb := h.ModeSense10(0, 0x3f, 0, 255, false)
				if six {
					cdb = h.ModeSense6(0, 0x3f, 0, 255, false)
				}
				_, bd, pgs := parse(cdb, six)
				if len(pgs) != len(order) {
					k.Fail("mode-dbd", "%x: %d pages, %d without block descriptors", cdb, len(pgs), len(order))
				}
				if len(bd) == 0 {
					continue
				}
				rc := i.Exec(u.lun, h.ReadCap10(), 8, true, nil)
				if len(rc.Data) != 8 {
					k.Fail("mode-bd", "READ CAPACITY: %v", rc)
					return
				}
				nb, bs := binary.BigEndian.Uint32(rc.Data)+1, binary.BigEndian.Uint32(rc.Data[4:])
				if len(bd) != 8 || binary.BigEndian.Uint32(bd) != nb || binary.BigEndian.Uint32(bd[4:])&0xffffff != bs {
					k.Fail("mode-bd", "%x: block descriptor %x of a unit with %d blocks of %d bytes", cdb, bd, nb, bs)
				}
			}
			for _, must := range [][2]byte{{2, 0}, {8, 0}, {0x0a, 0}, {0x0a, 1}, {0x1c, 0}} {
				if byCode[must] == nil {
					k.Fail("mode-missing", "page %x is not returned", must)
				}
			}
			for p := 0; p < 0x3f; p++ {
				for _, sub := range []byte{0, 1, 2, 0x80, 0xfe} {
					for _, six := range []bool{true, false} {
						for pc := byte(0); pc < 4; pc++ {
							cdb := h.ModeSense10(pc, byte(p), sub, 255, p%2 == 0)
							if six {
								cdb = h.ModeSense6(pc, byte(p), sub, 255, p%2 == 0)
							}
							want := byCode[[2]byte{byte(p), sub}]
							if pc == 3 || want == nil {
								r := i.Exec(u.lun, cdb, 255, true, nil)
								k.Op(1)
								if !(r.Status == 2 && r.Key() == 5) {
									k.Fail("mode-unlisted", "%x: %v", cdb, r)
								}
								continue
							}
							_, bd, pgs := parse(cdb, six)
							if len(pgs) != 1 || pc == 0 && !bytes.Equal(pgs[0], want) {
								k.Fail("mode-page", "%x: %x, want %x", cdb, pgs, want)
							}
							if (len(bd) == 8) != (p%2 != 0) {
								k.Fail("mode-dbd", "%x: block descriptor %x", cdb, bd)
							}
							k.State(fmt.Sprintf("%d mode %x", ui, pgs))
						}
					}
				}
			}
			if pg := byCode[[2]byte{8, 0}]; len(pg) > 2 && pg[2]&4 == 0 {
				k.Fail("mode-cache", "WCE is not set in %x", pg)
			}
			k.crashes(w, "crash")
		})
	}
	// identity across sessions, targets, reconnects and resets
	c.Case("identity", func(k *Case) {
		w := h.NewWorld(cfg)
		defer w.End()
		ids := map[uint64]string{}
		for round := 0; round < 3; round++ {
			for _, u := range units {
				i := open(k, w, round*10+u.ti, u.ti, h.Portal)
				if i == nil {
					return
				}
				if round == 1 { // a reset does not change who the unit is
					p := &h.PDU{}
					p.B[0], p.B[1] = h.OpTMF|0x40, 0x85
					p.SetLUN(u.lun)
					p.Put32(16, i.ITT()).Put32(20, 0xffffffff).Put32(24, i.CmdSN).Put32(28, i.ExpStat)
					i.Do(p)
				}
				r := i.Exec(u.lun, h.Inquiry(true, 0x83, 1024), 1024, true, nil)
				s := i.Exec(u.lun, h.Inquiry(true, 0x80, 1024), 1024, true, nil)
				k.Op(2)
				if !r.Good() || !s.Good() {
					k.Fail("identity", "unit %+v: %v %v", u, r, s)
					return
				}
				id := fmt.Sprintf("%x serial %q", luIdent(r.Data[4:]), s.Data[4:])
				if old, ok := ids[u.dev]; ok && old != id {
					k.Fail("identity-changed", "device %d was %s, is %s as target %d unit %d", u.dev, old, id, u.ti, u.lun)
				}
				for d, x := range ids {
					if d != u.dev && (x == id) {
						k.Fail("identity-shared", "devices %d and %d are both %s", d, u.dev, id)
					}
				}
				ids[u.dev] = id
				k.State(id)
				i.Close()
			}
		}
	})
}

// luIdent picks the designators associated with the logical unit.
func luIdent(d []byte) (out []byte) {
	for len(d) >= 4 && len(d) >= 4+int(d[3]) {
		n := 4 + int(d[3])
		if d[1]>>4&3 == 0 {
			out = append(out, d[:n]...)
		}
		d = d[n:]
	}
	return
}

// p22ident checks the designation descriptors of one unit.
func p22ident(k *Case, ti int, w *h.World, dev uint64, portal int, d []byte) {
	name := w.Names[ti]
	tpgt := uint16(1)
	if portal == 2 {
		tpgt = 2
	}
	var naa, tgtName, port bool
	var group, rel int = -1, -1
	for x := d; len(x) > 0; {
		if len(x) < 4 || len(x) < 4+int(x[3]) {
			k.Fail("ident-length", "designators %x end inside one", d)
			return
		}
		v := x[4 : 4+int(x[3])]
		set, ok := map[byte]byte{3: 1, 4: 1, 5: 1, 8: 3}[x[1]&0xf]
		if ok && x[0]&0xf != set || x[1]>>4&3 == 1 && (x[1]&0x80 == 0 || x[0]>>4 != 5) || x[1]&0xf > 3 && x[1]>>4&3 != 1 {
			k.Fail("ident-header", "%s: designator header %x", name, x[:4])
		}
		switch x[1] & 0xf {
		case 3:
			naa = len(v) == 8 && v[0]>>4 == 3 && binary.BigEndian.Uint64(v)&(1<<60-1) == dev && x[1]>>4&3 == 0
		case 0:
			tgtName = string(v) == name
		case 5:
			group = int(binary.BigEndian.Uint32(v))
		case 4:
			rel = int(binary.BigEndian.Uint32(v))
		case 8:
			var tag uint16
			rest, ok := bytes.CutPrefix(bytes.TrimRight(v, "\x00"), []byte(name+",t,0x"))
			_, err := fmt.Sscanf(string(rest), "%x", &tag)
			port = ok && err == nil && tag == tpgt && len(v)%4 == 0
		}
		x = x[4+int(x[3]):]
	}
	if !naa || !tgtName {
		k.Fail("ident", "device %d of %s: designators %x", dev, name, d)
	}
	if group < 0 || rel != int(tpgt) {
		k.Fail("ident-relport", "%s on portal %d: target port group %d, relative port %d, want %d", name, portal, group, rel, tpgt)
	}
	if !port {
		k.Fail("ident-port", "%s on portal %d: designators %q", name, portal, d)
	}
}
