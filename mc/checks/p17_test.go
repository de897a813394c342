package checks

import (
	"fmt"

	"verifmc/h"
)

func init() {
	reg("P17", "model_checking",
		"every set of up to three outstanding writes over two sessions and two units (LUNs 0 and 1, 0 and 256), each at every stage of its transfer x every task management function code, unit and referenced tag (each outstanding task, a completed one, none, one that differs in a bit of each byte, one of the other session) x every way to go on (data of aborted tasks still arriving or not, in every order); every set of up to three writes that wait ahead of CmdSN, with tags that share bytes, x every function, unit and referenced tag; oracle: which tasks survive, the response code, no answer and no effect of an aborted task, tags usable again; a state is (outstanding set, function, survivors)",
		p17)
}

type tmTask struct {
	ses   int
	lun   uint64
	stage int
}

func p17(c *Ctx) {
	p17ahead(c)
	var kinds []tmTask
	for ses := 0; ses < 2; ses++ {
		for lun := uint64(0); lun < 2; lun++ {
			for _, st := range []int{0, 1, 2} {
				kinds = append(kinds, tmTask{ses, lun, st})
			}
		}
	}
	var sets [][]tmTask
	sets = append(sets, nil)
	for a := range kinds {
		sets = append(sets, []tmTask{kinds[a]})
		for b := a; b < len(kinds); b++ {
			sets = append(sets, []tmTask{kinds[a], kinds[b]})
			if b%2 == 1 || c.Thorough() {
				sets = append(sets, []tmTask{kinds[b], kinds[a]})
			}
			for d := b; d < len(kinds) && (c.Thorough() || a%3 == 0); d += Pick(c, 3, 1) {
				sets = append(sets, []tmTask{kinds[a], kinds[b], kinds[d]})
			}
		}
	}
	for si := range sets {
		for _, hi := range []uint64{1, 256} {
			set := append([]tmTask{}, sets[si]...)
			for n := range set {
				set[n].lun *= hi
			}
			c.Case(fmt.Sprintf("set/%d/%d", si, hi), func(k *Case) {
				type req struct {
					fn   byte
					lun  uint64
					ref  int // index of an outstanding task, -1 completed, -2 unknown
					imm  bool
					late bool // data of aborted tasks still arrives
					rev  bool
				}
				var reqs []req
				for _, imm := range []bool{true, false} {
					for _, late := range []bool{true, false} {
						for _, rev := range []bool{true, false} {
							if rev && (len(set) < 2 || !imm) {
								continue
							}
							for n := range set {
								reqs = append(reqs, req{1, set[n].lun, n, imm, late, rev})
							}
							reqs = append(reqs, req{1, 0, -1, imm, late, rev}, req{1, 0, -2, imm, late, rev})
							if len(set) > 0 {
								reqs = append(reqs, req{1, 0, -3, imm, late, rev}, req{1, 0, -4, imm, late, rev}, req{1, 0, -5, imm, late, rev}, req{1, 0, -6, imm, late, rev})
							}
							for _, lun := range []uint64{0, hi} {
								reqs = append(reqs, req{2, lun, -2, imm, late, rev}, req{5, lun, -2, imm, late, rev})
							}
							if !rev && late {
								for _, fn := range []byte{0, 3, 4, 6, 7, 8, 9, 15, 127} {
									ref := -2
									if len(set) > 0 {
										ref = 0
									}
									reqs = append(reqs, req{fn, 0, ref, imm, late, rev})
								}
							}
						}
					}
				}
				for _, q := range reqs {
					if q.fn == 5 {
						foreign := false
						for _, t := range set {
							foreign = foreign || t.ses != 0 && t.lun == q.lun
						}
						if foreign {
							continue // what a reset does to other sessions' tasks is not specified here
						}
					}
					if !p17one(k, set, q.fn, q.lun, q.ref, q.imm, q.late, q.rev) {
						return
					}
				}
			})
		}
	}
}

func p17one(k *Case, set []tmTask, fn byte, lun uint64, ref int, imm, late, rev bool) bool {
	w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Blocks: 8}, h.LUN{LUN: 1, Blocks: 8}, h.LUN{LUN: 256, Blocks: 8}))
	defer w.End()
	is := []*h.Ini{w.Session(0, 0, "MaxBurstLength", "512"), w.Session(1, 0, "MaxBurstLength", "512")}
	if is[0] == nil || is[1] == nil {
		k.Fail("no-session", "cannot log in")
		return false
	}
	what := fmt.Sprintf("tasks %+v, function %d unit %d ref %d immediate %v late data %v", set, fn, lun, ref, imm, late)
	bad := func(key, f string, a ...any) bool {
		k.Fail(key, "%s: %s", what, fmt.Sprintf(f, a...))
		return false
	}
	model := map[uint64][]byte{0: make([]byte, 4096), 1: make([]byte, 4096), 256: make([]byte, 4096)}
	var ts []*wtask
	gone := map[*wtask]bool{}
	drain := func() string {
		for _, i := range is {
			for _, p := range i.Recv() {
				var t *wtask
				for _, x := range ts {
					if x.i == i && x.pdu != nil && x.pdu.ITT() == p.ITT() {
						t = x
					}
				}
				if t == nil {
					return "an answer to no task: " + p.String()
				}
				if gone[t] {
					return "an answer to an aborted task: " + p.String()
				}
				if e := t.take(p, 512); e != "" {
					return e
				}
				if t.finished {
					copy(model[t.lun][t.lba*512:], t.data)
				}
			}
			if i.Bad != nil || i.EOF {
				return fmt.Sprintf("stream %v, closed %v", i.Bad, i.EOF)
			}
		}
		for l, m := range model {
			if !w.Stores[h.LKey(0, l)].Equal(m) {
				return fmt.Sprintf("unit %d is not what the completed writes left", l)
			}
		}
		return ""
	}
	// a completed task, whose tag is known
	doneTag := is[0].NextITT
	if r := is[0].Exec(0, h.TUR(), 0, false, nil); !r.Good() {
		return bad("tur", "%v", r)
	}
	for n, x := range set {
		t := &wtask{i: is[x.ses], lun: x.lun, lba: uint64(2 * n), data: h.Fill(1024, byte(n+1)), seg: []int{256}}
		ts = append(ts, t)
		for s := 0; s <= x.stage; s++ {
			t.i.Send(t.next())
			if x.stage == 2 && s == 1 {
				t.i.Send(t.next())
			}
			if e := drain(); e != "" {
				return bad("setup", "%s", e)
			}
		}
		k.Op(1)
	}
	tag := uint32(0x5555)
	if ref == -1 {
		tag = doneTag
	} else if ref <= -3 { // like that of a task, but for one bit
		tag = ts[0].pdu.ITT() ^ 0x80<<(8*uint(-3-ref))
	} else if ref >= 0 {
		tag = ts[ref].pdu.ITT()
	}
	// what has to happen
	want := byte(255)
	switch fn {
	case 1:
		want = 1
		for _, t := range ts {
			if t.i == is[0] && t.pdu.ITT() == tag {
				want, gone[t] = 0, true
			}
		}
	case 2, 5:
		want = 0
		for _, t := range ts {
			gone[t] = t.i == is[0] && t.lun == lun
		}
	case 3, 4, 6, 7, 8:
		want = 5
	}
	p := &h.PDU{}
	p.B[0], p.B[1] = h.OpTMF, 0x80|fn
	p.SetLUN(lun)
	p.Put32(16, is[0].ITT()).Put32(20, tag).Put32(24, is[0].CmdSN).Put32(28, is[0].ExpStat)
	if imm {
		p.B[0] |= 0x40
	} else {
		is[0].CmdSN++
	}
	ps := is[0].Do(p)
	k.Op(1)
	if len(ps) != 1 || ps[0].Op() != h.OpTMFResp || ps[0].ITT() != p.ITT() || ps[0].B[2] != want {
		return bad(fmt.Sprintf("response %d", fn), "response %v, want code %d", ps, want)
	}
	order := append([]*wtask{}, ts...)
	if rev {
		for a, b := 0, len(order)-1; a < b; a, b = a+1, b-1 {
			order[a], order[b] = order[b], order[a]
		}
	}
	for _, t := range order {
		if gone[t] && !late {
			continue
		}
		for t.runnable() {
			t.i.Send(t.next())
			k.Op(1)
			if e := drain(); e != "" {
				return bad(fmt.Sprintf("after %d", fn), "%s", e)
			}
		}
		if !gone[t] && !t.finished {
			return bad(fmt.Sprintf("lost %d", fn), "a task that was not aborted got no status")
		}
	}
	// the tags can be used again, by tasks of another shape
	for _, t := range append([]*wtask{}, ts...) {
		if !gone[t] {
			continue
		}
		save := t.i.NextITT
		t.i.NextITT = t.pdu.ITT()
		u := &wtask{i: t.i, lun: t.lun, lba: 6, data: h.Fill(1024, 0x77), imm: 512}
		delete(gone, t)
		for n := range ts {
			if ts[n] == t {
				ts[n] = u
			}
		}
		u.i.Send(u.next())
		u.i.NextITT = save
		for {
			if e := drain(); e != "" {
				return bad(fmt.Sprintf("reuse %d", fn), "%s", e)
			}
			if !u.runnable() {
				break
			}
			u.i.Send(u.next())
		}
		if !u.finished {
			return bad(fmt.Sprintf("reuse %d", fn), "a task with the tag of an aborted one got no status")
		}
		k.Op(2)
	}
	k.State(fmt.Sprint(set, fn, lun, ref, len(gone)))
	return !k.crashes(w, "crash")
}

// p17ahead: commands that arrived before their turn are tasks too.
func p17ahead(c *Ctx) {
	tags := []uint32{0x01020304, 0x01020305, 0x01020404, 0x01030304, 0x02020304, 0x01020384, 0x81020304}
	luns := []uint64{0, 1, 256}
	for n := 1; n <= 3; n++ {
		for first := range tags {
			for units := 0; units < 27; units++ {
				if n < 3 && units >= 9 || n < 2 && units >= 3 {
					continue
				}
				c.Case(fmt.Sprintf("ahead/%d/%d/%d", n, first, units), func(k *Case) {
					type want struct {
						fn  byte
						lun uint64
						ref uint32
					}
					var all []want
					for _, t := range tags {
						all = append(all, want{1, luns[units%3], t})
					}
					for _, l := range luns {
						all = append(all, want{2, l, 0xffffffff}, want{5, l, 0xffffffff})
					}
					all = append(all, want{4, 0, 0xffffffff}, want{0, 0, 0})
					for _, x := range all {
						if !p17aheadOne(k, tags, luns, n, first, units, x.fn, x.lun, x.ref) {
							return
						}
					}
				})
			}
		}
	}
}

func p17aheadOne(k *Case, tags []uint32, luns []uint64, n, first, units int, fn byte, lun uint64, ref uint32) bool {
	w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Blocks: 8}, h.LUN{LUN: 1, Blocks: 8}, h.LUN{LUN: 256, Blocks: 8}))
	defer w.End()
	i := w.Session(0, 0)
	if i == nil {
		k.Fail("no-session", "cannot log in")
		return false
	}
	var hist string
	bad := func(key, f string, a ...any) bool {
		k.Fail(key, "%s: %s", hist, fmt.Sprintf(f, a...))
		return false
	}
	model := map[uint64][]byte{0: make([]byte, 4096), 1: make([]byte, 4096), 256: make([]byte, 4096)}
	sn := i.CmdSN
	left := map[uint32]bool{}
	for x := 0; x < n; x++ {
		i.CmdSN = sn + uint32(x) + 1
		tag := tags[(first+x)%len(tags)]
		l := luns[units%3]
		if x == 1 {
			l = luns[units/3%3]
		} else if x == 2 {
			l = luns[units/9]
		}
		d := h.Fill(512, byte(x+1))
		p := i.CmdPDU(l, h.C10(0x2a, 0, uint32(x), 1), 512, false, true)
		p.Put32(16, tag)
		p.B[1] |= 0x80
		p.Data = d
		hist += fmt.Sprintf("write %08x to unit %d with CmdSN %d ahead; ", tag, l, x+1)
		k.Op(1)
		if ps := i.Do(p); len(ps) != 0 {
			return bad("ahead-early", "answered before its turn: %v", ps)
		}
		stays := true
		switch fn {
		case 1:
			stays = tag != ref
		case 2, 5:
			stays = l != lun
		}
		if stays {
			left[tag] = true
			copy(model[l][x*512:], d)
		}
	}
	i.CmdSN = sn + uint32(n) + 1
	if fn != 0 {
		hist += fmt.Sprintf("function %d unit %d tag %08x; ", fn, lun, ref)
		p := &h.PDU{}
		p.B[0], p.B[1] = h.OpTMF|0x40, 0x80|fn
		p.SetLUN(lun)
		p.Put32(16, 0x77777777).Put32(20, ref).Put32(24, i.CmdSN).Put32(28, i.ExpStat)
		ps := i.Do(p)
		if len(ps) != 1 || ps[0].Op() != h.OpTMFResp || ps[0].ITT() != 0x77777777 {
			return bad("ahead-tmf", "answered with %v", ps)
		}
		named := false
		for x := 0; x < n; x++ {
			named = named || tags[(first+x)%len(tags)] == ref
		}
		if r := ps[0].B[2]; fn == 4 && r == 0 || (fn == 2 || fn == 5 || named) && r != 0 || fn == 1 && !named && r > 1 {
			return bad("ahead-response", "response %d", r)
		}
		if fn == 4 && ps[0].B[2] == 0 {
			return true
		}
	}
	p := i.CmdPDU(0, h.TUR(), 0, false, false)
	p.Put32(16, 0x55555555).Put32(24, sn)
	got := map[uint32]int{}
	ps := i.Do(p)
	i.CmdSN = sn + uint32(n) + 1
	q := i.CmdPDU(1, h.TUR(), 0, false, false)
	q.Put32(16, 0x66666666)
	ps = append(ps, i.Do(q)...)
	for _, r := range ps {
		if r.Op() != h.OpResp || r.B[3] != 0 {
			return bad("ahead-answer", "then %v", r.String())
		}
		got[r.ITT()]++
	}
	want := map[uint32]int{0x55555555: 1, 0x66666666: 1}
	for t := range left {
		want[t] = 1
	}
	k.State(fmt.Sprint(fn, len(left), n))
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return bad("ahead-answers", "the answers are to %x, want %x", got, want)
	}
	for l, m := range model {
		if !w.Stores[h.LKey(0, l)].Equal(m) {
			return bad("ahead-effect", "unit %d does not hold what the tasks left wrote", l)
		}
	}
	return true
}
