package checks

import (
	"bytes"
	"fmt"

	"verifmc/h"
)

func init() {
	reg("P08", "model_checking",
		"every write length x immediate part x MaxBurstLength x ImmediateData x segmentation of each solicited burst (all cut sets of a grid, odd lengths included) x write command; every interleaving of the command and Data-Out PDUs of two and three outstanding writes on one session and on two sessions with equal task tags, PDU by PDU and in one burst; oracle: exact R2T sequence (contiguous, in order, at most MaxBurstLength), content applied whole at completion and not before; a state is (pending bursts, medium)",
		p08)
}

// chooser enumerates all executions of a body that asks it to choose.
type chooser struct {
	path, width []int
	at          int
}

func (x *chooser) pick(n int) int {
	if n <= 1 {
		return 0
	}
	if x.at == len(x.path) {
		x.path, x.width = append(x.path, 0), append(x.width, n)
	}
	if x.width[x.at] != n {
		panic(fmt.Sprintf("choice %d had %d options, now %d", x.at, x.width[x.at], n))
	}
	x.at++
	return x.path[x.at-1]
}
func (x *chooser) next() bool {
	x.at = 0
	for l := len(x.path) - 1; l >= 0; l-- {
		if x.path[l]++; x.path[l] < x.width[l] {
			x.path, x.width = x.path[:l+1], x.width[:l+1]
			return true
		}
	}
	return false
}

// every runs f for every sequence of choices; f returns false to stop.
func every(f func(x *chooser) bool) {
	for x := (&chooser{}); ; {
		x.at = 0
		if !f(x) || !x.next() {
			return
		}
	}
}

// compositions are the ways to cut n at points of the grid into at most max pieces.
func compositions(n int, grid []int, max int) (out [][]int) {
	var pts []int
	for _, g := range grid {
		if g > 0 && g < n {
			pts = append(pts, g)
		}
	}
	var rec func(from int, cuts []int)
	rec = func(from int, cuts []int) {
		var c []int
		last := 0
		for _, x := range cuts {
			c, last = append(c, x-last), x
		}
		out = append(out, append(c, n-last))
		if len(cuts)+1 == max {
			return
		}
		for i := from; i < len(pts); i++ {
			rec(i+1, append(append([]int{}, cuts...), pts[i]))
		}
	}
	rec(0, nil)
	return
}

// wtask is an outstanding write as the initiator sees it.
type wtask struct {
	i        *h.Ini
	lun      uint64
	lba      uint64
	data     []byte
	imm      int
	seg      []int // cut of each burst
	pdu      *h.PDU
	r2t      *h.PDU
	sn, off  int // progress inside the burst: index of the next piece, bytes sent
	expOff   int
	r2tsn    uint32
	ttt      uint32
	started  bool
	finished bool
}

func (t *wtask) runnable() bool { return !t.finished && (!t.started || t.r2t != nil) }

// next is the next PDU of the task.
func (t *wtask) next() *h.PDU {
	if !t.started {
		t.started = true
		t.pdu = t.i.CmdPDU(t.lun, h.C10(0x2a, 0, uint32(t.lba), uint16(len(t.data)/512)), len(t.data), false, true)
		t.pdu.Data = t.data[:t.imm]
		t.expOff = t.imm
		return t.pdu
	}
	want := int(t.r2t.Desired())
	n := want - t.off
	if t.sn < len(t.seg) && t.seg[t.sn] < n {
		n = t.seg[t.sn]
	}
	o := int(t.r2t.Offset()) + t.off
	p := t.i.DataOut(t.lun, t.r2t.ITT(), t.r2t.TTT(), uint32(t.sn), uint32(o), t.data[o:o+n], t.off+n == want)
	t.sn++
	t.off += n
	if t.off == want {
		t.r2t = nil
	}
	return p
}

// take handles what arrived for the task and returns an error text.
func (t *wtask) take(p h.PDU, maxBurst int) string {
	switch p.Op() {
	case h.OpR2T:
		if t.r2t != nil {
			return "a second outstanding R2T"
		}
		if t.finished {
			return "R2T after the status"
		}
		if int(p.Offset()) != t.expOff || p.Desired() == 0 || int(p.Desired()) > maxBurst || t.expOff+int(p.Desired()) > len(t.data) {
			return fmt.Sprintf("%s after %d bytes of %d (MaxBurstLength %d)", p.String(), t.expOff, len(t.data), maxBurst)
		}
		if p.DataSN() != t.r2tsn || p.TTT() == 0xffffffff {
			return fmt.Sprintf("%s, want R2TSN %d", p.String(), t.r2tsn)
		}
		t.r2tsn++
		t.expOff += int(p.Desired())
		t.r2t, t.sn, t.off = &p, 0, 0
	case h.OpResp:
		if t.finished || t.r2t != nil || t.expOff != len(t.data) {
			return fmt.Sprintf("status after %d bytes of %d", t.expOff, len(t.data))
		}
		if p.Status() != 0 || p.B[2] != 0 || p.B[1]&6 != 0 {
			return p.String()
		}
		t.finished = true
	default:
		return "unexpected " + p.String()
	}
	return ""
}

func p08(c *Ctx) {
	// one write at a time, every shape
	for _, burst := range []int{512, 1024, 1536, 2000, 262144} {
		for _, immOn := range []bool{true, false} {
			for _, nb := range Pick(c, []int{1, 2, 3, 4}, []int{1, 2, 3, 4, 5, 6}) {
				c.Case(fmt.Sprintf("shape/%d/%v/%d", burst, immOn, nb), func(k *Case) {
					w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Blocks: 16}))
					defer w.End()
					yn := map[bool]string{true: "Yes", false: "No"}
					i := w.Session(0, 0, "MaxBurstLength", fmt.Sprint(burst), "ImmediateData", yn[immOn])
					if i == nil {
						k.Fail("no-session", "cannot log in")
						return
					}
					n := nb * 512
					imms := []int{0}
					if immOn {
						for _, m := range []int{1, 3, 4, 511, 512, 513, 1000, 1024, n - 512, n - 1, n} {
							if m > 0 && m <= n && m != imms[len(imms)-1] {
								imms = append(imms, m)
							}
						}
					}
					model := make([]byte, 16*512)
					grid := Pick(c, []int{1, 4, 511, 512, 514, 1024}, []int{1, 3, 4, 100, 510, 511, 512, 513, 514, 1023, 1024, 1025, 1536})
					tag := byte(0)
					for _, imm := range imms {
						for _, seg := range compositions(min(n-imm, burst), grid, Pick(c, 4, 5)) {
							if imm == n && len(seg) > 1 {
								continue
							}
							tag++
							t := &wtask{i: i, lba: uint64(tag) % uint64(17-nb), data: h.Fill(n, tag), imm: imm, seg: seg}
							what := fmt.Sprintf("write of %d bytes, %d immediate, MaxBurstLength %d, pieces %v", n, imm, burst, seg)
							for t.runnable() {
								if !t.finished && !w.Stores["0/0"].Equal(model) {
									k.Fail("early", "%s: the medium changed before all data arrived", what)
									return
								}
								i.Send(t.next())
								k.Op(1)
								for _, p := range i.Recv() {
									if e := t.take(p, burst); e != "" {
										k.Fail("r2t", "%s: %s", what, e)
										return
									}
								}
							}
							if !t.finished || i.Bad != nil || i.EOF {
								k.Fail("unfinished", "%s: no status (%v, closed %v)", what, i.Bad, i.EOF)
								return
							}
							copy(model[t.lba*512:], t.data)
							if !w.Stores["0/0"].Equal(model) {
								k.Fail("content", "%s: the medium is not what was written", what)
								return
							}
							k.State(fmt.Sprint(n, imm, burst, t.r2tsn))
						}
					}
					k.crashes(w, "crash")
				})
			}
		}
	}
	// large writes in large pieces, up to what the target announces to take
	for _, burst := range []int{65536, 131072, 262144} {
		for _, seg := range []int{8192, 32768, 65532, 65535, 65536} {
			c.Case(fmt.Sprintf("large/%d/%d", burst, seg), func(k *Case) {
				w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Blocks: 700}))
				defer w.End()
				i := w.Session(0, 0, "MaxBurstLength", fmt.Sprint(burst))
				if i == nil {
					k.Fail("no-session", "cannot log in")
					return
				}
				model := make([]byte, 700*512)
				var pieces []int
				for n := 0; n < burst; n += seg {
					pieces = append(pieces, seg)
				}
				tag := byte(0)
				for _, imm := range []int{0, 512, 65024, 65536} {
					for _, nb := range []int{127, 128, 129, 255, 256, 257, 511, 512, 513, 600} {
						tag++
						if imm > nb*512 {
							continue
						}
						t := &wtask{i: i, lba: uint64(tag), data: h.Fill(nb*512, tag), imm: imm, seg: pieces}
						what := fmt.Sprintf("write of %d blocks, %d bytes immediate, MaxBurstLength %d, pieces of %d", nb, imm, burst, seg)
						for t.runnable() {
							i.Send(t.next())
							k.Op(1)
							for _, p := range i.Recv() {
								if e := t.take(p, burst); e != "" {
									k.Fail("large", "%s: %s", what, e)
									return
								}
							}
						}
						if !t.finished || i.Bad != nil || i.EOF {
							k.Fail("large", "%s: no status (%v, closed %v)", what, i.Bad, i.EOF)
							return
						}
						copy(model[t.lba*512:], t.data)
						if !w.Stores["0/0"].Equal(model) {
							k.Fail("large", "%s: the medium is not what was written", what)
							return
						}
						k.State(fmt.Sprint("large", nb*512 > burst, imm))
					}
				}
				k.crashes(w, "crash")
			})
		}
	}
	// every write command through the same assembly
	for _, rw := range h.Writes {
		for _, burst := range []int{512, 1024} {
			c.Case(fmt.Sprintf("cmd/%s/%d", rw.Name, burst), func(k *Case) {
				for _, imm := range []int{0, 512, 700} {
					for _, seg := range []int{1, 100, 512, 8192} {
						w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Blocks: 8}))
						i := w.Session(0, 0, "MaxBurstLength", fmt.Sprint(burst))
						i.ImmLimit, i.Seg = imm, seg
						data := h.Fill(1536, byte(imm))
						r := i.Exec(0, rw.CDB(0, 2, 3), 1536, false, data)
						k.Op(1)
						want := make([]byte, 8*512)
						copy(want[1024:], data)
						if !r.Good() || r.Problem != "" || !w.Stores["0/0"].Equal(want) {
							k.Fail("cmd "+rw.Name, "%s with %d immediate, MaxBurstLength %d, pieces of %d: %v", rw.Name, imm, burst, seg, r)
						}
						k.State(fmt.Sprint(rw.Name, len(r.R2Ts)))
						k.crashes(w, "crash")
						w.End()
					}
				}
			})
		}
	}
	// several outstanding writes, every interleaving
	type spec struct {
		ses      int
		lun, lba uint64
		n, imm   int
		seg      []int
	}
	var sets [][]spec
	for _, ia := range []int{0, 512} {
		for _, ib := range []int{0, 512, 1024} {
			for _, o := range []uint64{0, 1, 2, 8} {
				sets = append(sets,
					[]spec{{0, 0, 0, 1024, ia, []int{256, 256}}, {0, 0, o, 1024, ib, []int{500, 12}}},
					[]spec{{0, 0, 0, 1024, ia, []int{256, 256}}, {1, 0, o, 1024, ib, []int{500, 12}}})
			}
			sets = append(sets, []spec{{0, 0, 1, 1024, ia, []int{256}}, {0, 1, 1, 1024, ib, []int{500}}})
		}
	}
	for _, ses := range [][3]int{{0, 0, 0}, {0, 1, 0}, {0, 1, 2}} {
		for _, o := range []uint64{0, 3} {
			sets = append(sets, []spec{{ses[0], 0, 0, 512, 0, []int{256}}, {ses[1], 0, o, 512, 0, []int{256}}, {ses[2], 0, 2 * o, 512, 0, nil}})
		}
		if c.Thorough() {
			sets = append(sets, []spec{{ses[0], 0, 0, 1024, 0, []int{256}}, {ses[1], 0, 1, 1024, 512, []int{256}}, {ses[2], 1, 2, 512, 0, []int{256}}})
		}
	}
	for si, set := range sets {
		for _, batch := range []bool{false, true} {
			if batch && len(set) > 2 && !c.Thorough() {
				continue
			}
			c.Case(fmt.Sprintf("interleave/%d/%v", si, batch), func(k *Case) {
				every(func(x *chooser) bool {
					w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Blocks: 12}, h.LUN{LUN: 1, Blocks: 12}))
					defer w.End()
					var is []*h.Ini
					for n := 0; n < 3; n++ {
						i := w.Session(n, 0, "MaxBurstLength", "512")
						if i == nil {
							k.Fail("no-session", "cannot log in")
							return false
						}
						is = append(is, i)
					}
					model := map[uint64][]byte{0: make([]byte, 12*512), 1: make([]byte, 12*512)}
					var ts []*wtask
					for n, s := range set {
						ts = append(ts, &wtask{i: is[s.ses], lun: s.lun, lba: s.lba, data: h.Fill(s.n, byte(n+1)), imm: s.imm, seg: s.seg})
					}
					hist := ""
					deliver := func(done *[]*wtask) string {
						for _, i := range is {
							for _, p := range i.Recv() {
								var t *wtask
								for _, q := range ts {
									if q.i == i && q.pdu != nil && q.pdu.ITT() == p.ITT() {
										t = q
									}
								}
								if t == nil {
									return "a PDU for no task: " + p.String()
								}
								if e := t.take(p, 512); e != "" {
									return e
								}
								if t.finished {
									*done = append(*done, t)
								}
							}
							if i.Bad != nil || i.EOF {
								return fmt.Sprintf("stream %v, closed %v", i.Bad, i.EOF)
							}
						}
						return ""
					}
					for {
						var run []int
						for n, t := range ts {
							if t.runnable() {
								run = append(run, n)
							}
						}
						if len(run) == 0 {
							break
						}
						n := run[x.pick(len(run))]
						hist += fmt.Sprint(n)
						t := ts[n]
						i := t.i
						i.Send(t.next())
						k.Op(1)
						if batch {
							// everything that can be sent without waiting goes out before the target runs
							for _, q := range ts {
								if q.i == i && q.started && q.runnable() {
									for q.r2t != nil {
										i.Send(q.next())
									}
								}
							}
						}
						var done []*wtask
						if e := deliver(&done); e != "" {
							k.Fail("interleave", "writes %+v in order %s: %s", set, hist, e)
							return false
						}
						for _, d := range done {
							copy(model[d.lun][d.lba*512:], d.data)
						}
						if !w.Stores["0/0"].Equal(model[0]) || !w.Stores["0/1"].Equal(model[1]) {
							k.Fail("interleave-content", "writes %+v in order %s: the medium is not what the completed writes left", set, hist)
							return false
						}
						k.State(fmt.Sprint(si, hash(string(model[0])), len(run)))
					}
					for n, t := range ts {
						if !t.finished {
							k.Fail("interleave-unfinished", "writes %+v in order %s: %d has no status", set, hist, n)
							return false
						}
					}
					return !k.crashes(w, "crash")
				})
			})
		}
	}
}

func init() {
	reg("P09", "model_checking",
		"every read length up to past several segments x expected data transfer length (equal, shorter, longer) x MaxRecvDataSegmentLength x MaxBurstLength x read command x order in which maps are walked, also for several reads sent in one go; oracle: segments no longer than declared, consecutive DataSN, contiguous offsets, F exactly at burst ends, one status, residual arithmetic, content of the medium; a state is the shape of the PDU sequence",
		p09)
}

// dataInShape checks the Data-In PDUs of one read and returns a description.
func dataInShape(r *h.Result, mrdsl, burst int) (string, string) {
	sn, off, inBurst, shape := uint32(0), 0, 0, ""
	for n, p := range r.PDUs {
		if p.Op() != h.OpDataIn {
			shape += "R"
			continue
		}
		f, s := p.B[1]&0x80 != 0, p.B[1]&1 != 0
		last := n == len(r.PDUs)-1 || r.PDUs[n+1].Op() != h.OpDataIn
		switch {
		case len(p.Data) > mrdsl:
			return "", fmt.Sprintf("a segment of %d bytes, MaxRecvDataSegmentLength is %d", len(p.Data), mrdsl)
		case p.DataSN() != sn:
			return "", fmt.Sprintf("DataSN %d, want %d", p.DataSN(), sn)
		case int(p.Offset()) != off:
			return "", fmt.Sprintf("buffer offset %d, want %d", p.Offset(), off)
		case inBurst+len(p.Data) > burst:
			return "", fmt.Sprintf("%d bytes without F, MaxBurstLength is %d", inBurst+len(p.Data), burst)
		case s && !f:
			return "", "status without F"
		case last && !f:
			return "", "the last Data-In has no F"
		case s && !last:
			return "", "status before the last Data-In"
		case len(p.Data) == 0 && off > 0:
			return "", "an empty segment"
		}
		sn++
		off += len(p.Data)
		inBurst += len(p.Data)
		shape += fmt.Sprintf("%d", len(p.Data))
		if f {
			inBurst = 0
			shape += "F"
		}
		shape += " "
	}
	return shape, ""
}

func p09(c *Ctx) {
	for order := 0; order < 26; order++ {
		for _, kv := range [][]string{nil, {"MaxRecvDataSegmentLength", "512"}, {"MaxBurstLength", "1024"}} {
			c.Case(fmt.Sprintf("order/%d/%v", order, kv), func(k *Case) {
				cfg := h.Simple(h.LUN{LUN: 0, Blocks: 300})
				cfg.Order = order + 1
				w := h.NewWorld(cfg)
				defer w.End()
				i := w.Session(0, 0, kv...)
				if i == nil {
					k.Fail("no-session", "cannot log in with %v", kv)
					return
				}
				mrdsl, burst := 8192, 262144
				if len(kv) > 0 && kv[0] == "MaxBurstLength" {
					burst = 1024
				} else if len(kv) > 0 {
					mrdsl = 512
				}
				for _, nb := range []int{1, 3, 16, 17, 40, 299} {
					r := i.Exec(0, h.C10(0x28, 0, 0, uint16(nb)), nb*512, true, nil)
					k.Op(1)
					shape, bad := dataInShape(r, mrdsl, burst)
					if !r.Good() || r.Problem != "" || bad != "" || len(r.Data) != nb*512 {
						k.Fail("order", "%d blocks with parameters initialised in order %d: %s %v", nb, order, bad, r)
						return
					}
					k.State(shape)
				}
			})
		}
	}
	for _, mr := range []int{0, 512, 1000, 1024, 4096, 65536, 16777215} {
		for _, bu := range []int{0, 512, 1024, 1500, 4096} {
			for _, shift := range []uint{9, 12, 109} {
				// 109: 512-byte blocks with maps walked in the reverse order
				order := 1
				if shift > 100 {
					order, shift = 2, shift-100
				}
				c.Case(fmt.Sprintf("read/%d/%d/%d/%d", mr, bu, shift, order), func(k *Case) {
					cfg := h.Simple(h.LUN{LUN: 0, Blocks: 300, Shift: shift})
					cfg.Order = order
					w := h.NewWorld(cfg)
					defer w.End()
					var kv []string
					mrdsl, burst := 8192, 262144
					if mr != 0 {
						kv, mrdsl = append(kv, "MaxRecvDataSegmentLength", fmt.Sprint(mr)), mr
					}
					if bu != 0 {
						kv, burst = append(kv, "MaxBurstLength", fmt.Sprint(bu)), bu
					}
					i := w.Session(0, 0, kv...)
					if i == nil {
						k.Fail("no-session", "cannot log in with %v", kv)
						return
					}
					med := h.Fill(300<<shift, byte(mr))
					w.SetMedium(0, 0, med)
					nbs := []int{1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 33, 129, 257}
					if c.Thorough() {
						nbs = nil
						for n := 1; n <= 140; n++ {
							nbs = append(nbs, n)
						}
						nbs = append(nbs, 255, 256, 257, 299)
					}
					for _, rd := range h.Reads {
						for _, nb := range nbs {
							if rd.Size == 6 && nb > 255 {
								continue
							}
							if rd.Size != 10 && nb > 9 && !c.Thorough() {
								continue
							}
							lba := uint64(nb * 7 % (300 - nb))
							n := nb << shift
							for _, e := range []int{n, n + 4, n + 512, n + 10000} {
								r := i.Exec(0, rd.CDB(0, lba, uint64(nb)), e, true, nil)
								k.Op(1)
								what := fmt.Sprintf("%s of %d bytes, expected %d, %v", rd.Name, n, e, kv)
								if !r.Good() || r.Problem != "" || !bytes.Equal(r.Data, med[lba<<shift:int(lba)<<shift+n]) {
									k.Fail("read", "%s: %v", what, r)
									return
								}
								if (e > n) != r.Under || r.Over || int(r.Resid) != e-n && r.Under {
									k.Fail("resid", "%s: %v", what, r)
								}
								shape, bad := dataInShape(r, mrdsl, burst)
								if bad != "" {
									k.Fail("shape", "%s: %s", what, bad)
									return
								}
								k.State(shape)
							}
						}
					}
					// several reads at once: the sequences do not mix
					for a := 1; a <= 5; a += 2 {
						for b := 1; b <= 17; b += 4 {
							na, nb := a<<shift, b<<shift
							pa := i.CmdPDU(0, h.C10(0x28, 0, 3, uint16(a)), na, true, false)
							pb := i.CmdPDU(0, h.C10(0x28, 0, 9, uint16(b)), nb, true, false)
							i.Send(pa, pb)
							var ra, rb h.Result
							for _, p := range i.Recv() {
								if p.ITT() == pa.ITT() {
									ra.Absorb(p)
								} else if p.ITT() == pb.ITT() {
									rb.Absorb(p)
								} else {
									k.Fail("two-reads", "%s", p.String())
								}
							}
							k.Op(2)
							for n, r := range []*h.Result{&ra, &rb} {
								o, l := 3<<shift, na
								if n == 1 {
									o, l = 9<<shift, nb
								}
								_, bad := dataInShape(r, mrdsl, burst)
								if !r.Good() || r.Problem != "" || bad != "" || !bytes.Equal(r.Data, med[o:o+l]) {
									k.Fail("two-reads", "reads of %d and %d blocks sent together: %s %v", a, b, bad, r)
									return
								}
							}
						}
					}
					k.crashes(w, "crash")
				})
			}
		}
	}
}
