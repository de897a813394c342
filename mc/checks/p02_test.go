package checks

import (
	"bytes"
	"fmt"

	"verifmc/h"
)

func init() {
	reg("P02", "model_checking",
		"every block command x every starting block around 0, the end of the medium and the limits of each address field x every count around 0, the end and the limits of the count field x every expected data length (exact, none, one block short, one block long); oracle: interval arithmetic over the medium; a state is (outcome class, medium content)",
		p02, "the medium ends after the last whole block")
}

type blkcmd struct {
	h.RW
	kind string // read write verify0 verify1 sync prefetch same orwrite unmap
	b1   byte
}

func blkcmds() (l []blkcmd) {
	for _, r := range h.Reads {
		l = append(l, blkcmd{r, "read", 0})
	}
	for _, r := range h.Writes {
		l = append(l, blkcmd{r, "write", 0})
	}
	for _, r := range h.Verifies {
		l = append(l, blkcmd{r, "verify0", 0}, blkcmd{r, "verify1", 2})
	}
	for _, r := range h.Syncs {
		l = append(l, blkcmd{r, "sync", 0})
	}
	for _, r := range h.Prefetches {
		l = append(l, blkcmd{r, "prefetch", 0})
	}
	for _, r := range h.WriteSames {
		l = append(l, blkcmd{r, "same", 0})
	}
	l = append(l, blkcmd{h.OrWrite, "orwrite", 0}, blkcmd{h.RW{Name: "UNMAP", Op: 0x42, Size: 10, Max: 1<<64 - 1, MaxN: 1<<32 - 1}, "unmap", 0})
	return
}

func p02(c *Ctx) {
	type medium struct {
		nb    int
		extra int
		shift uint
		kind  string
	}
	for _, md := range []medium{{5, 0, 9, "vmem"}, {5, 300, 9, "vmem"}, {3, 0, 12, "vmem"}, {300, 0, 9, "vmem"}, {5, 0, 9, "file"}, {5, 0, 9, "RemBs"}} {
		if !c.Thorough() && (md.kind == "RemBs") {
			continue
		}
		nb := uint64(md.nb)
		bs := uint64(1) << md.shift
		lbas := []uint64{0, 1, nb - 1, nb, nb + 1, 1<<21 - 1, 1 << 23, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40, 1<<55 - 1, 1 << 55, 1<<55 + 1, 1 << 52, 1<<63 - 1, 1 << 63, -nb, 1<<64 - 2, 1<<64 - 1}
		ns := []uint64{0, 1, 2, nb - 1, nb, nb + 1, 255, 256, 65535, 65536, 1 << 20, 1 << 23, 1<<23 + 1, 1 << 31, 1<<32 - 1}
		for ci, cmd := range blkcmds() {
			for _, lba := range lbas {
				for _, n := range ns {
					if lba > cmd.Max || n > cmd.MaxN || (cmd.Size == 6 && n == 0) {
						continue
					}
					for v := 0; v < 5; v++ {
						id := fmt.Sprintf("%s/%d/%d+%d/%d/%x+%x/v%d", md.kind, md.shift, md.nb, md.extra, ci, lba, n, v)
						c.Case(id, func(k *Case) { p02case(k, md.kind, md.shift, md.nb, md.extra, cmd, lba, n, v, bs) })
					}
				}
			}
		}
	}
	// lengths around the sizes the implementation splits commands at
	for ci, cmd := range blkcmds() {
		for _, n := range []uint64{127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 767, 768, 1023} {
			for _, lba := range []uint64{0, 3, 1100 - n, 1101 - n} {
				if lba > cmd.Max || n > cmd.MaxN {
					continue
				}
				c.Case(fmt.Sprintf("long/%d/%x+%x", ci, lba, n), func(k *Case) { p02case(k, "vmem", 9, 1100, 0, cmd, lba, n, 0, 512) })
			}
		}
	}
	// UNMAP with several descriptors, one of them bad
	for a := 0; a < 8; a++ {
		c.Case(fmt.Sprintf("unmap-multi/%d", a), func(k *Case) {
			w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Blocks: 8, Thin: true}))
			defer w.End()
			i := w.Session(0, 0)
			init := h.Fill(8*512, 0x77)
			w.SetMedium(0, 0, init)
			d := [][2]uint64{{0, 1}, {2, 1}, {4, 2}}
			bad := false
			if a >= 1 && a <= 3 {
				d[a-1] = [2]uint64{7, 2}
				bad = true
			}
			if a >= 4 && a <= 6 {
				d[a-4] = [2]uint64{1 << 55, 1}
				bad = true
			}
			cdb, data := h.Unmap(d...)
			r := i.Exec(0, cdb, len(data), false, data)
			k.Op(1)
			k.State(fmt.Sprint(a, r.Status))
			if k.crashes(w, "crash UNMAP") {
				return
			}
			if bad {
				if !r.Check(5, 0x2100) {
					k.Fail("out-of-range UNMAP", "%v: %v, want ILLEGAL REQUEST / LBA OUT OF RANGE", d, r)
				}
				if !bytes.Equal(w.Medium(0, 0), init) {
					k.Fail("medium-changed UNMAP", "%v refused but the medium changed", d)
				}
			} else {
				if !r.Good() {
					k.Fail("refused UNMAP", "%v: %v", d, r)
				}
				m := w.Medium(0, 0)
				for b := 0; b < 8; b++ {
					in := b == 0 || b == 2 || b == 4 || b == 5
					if !in && !bytes.Equal(m[b*512:b*512+512], init[b*512:b*512+512]) {
						k.Fail("containment UNMAP", "block %d changed by unmapping %v", b, d)
					}
				}
			}
			if o := w.Stores["0/0"].OOB; len(o) > 0 {
				k.Fail("store-oob UNMAP", "%v", o)
			}
		})
	}
}

func p02case(k *Case, kind string, shift uint, nbi, extra int, cmd blkcmd, lba, n uint64, v int, bs uint64) {
	nb := uint64(nbi)
	hasOut := cmd.kind == "write" || cmd.kind == "verify1" || cmd.kind == "same" || cmd.kind == "orwrite" || cmd.kind == "unmap"
	hasIn := cmd.kind == "read"
	// expected data length
	exact := n * bs
	if cmd.kind == "same" {
		exact = bs
	}
	const cap = 1 << 18
	edtl := uint64(0)
	switch v {
	case 0:
		edtl = exact
	case 1:
		edtl = 0
	case 2:
		if exact < bs || exact == 0 {
			return
		}
		edtl = exact - bs
		if edtl == 0 {
			edtl = bs / 2
		}
	case 3:
		edtl = exact + bs
	case 4:
		edtl = exact + 3*bs
	}
	if edtl > cap {
		edtl = cap
		if v != 0 {
			return
		}
	}
	if !hasOut && !hasIn && v != 0 && v != 1 {
		return
	}
	w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Kind: kind, Blocks: nbi, Extra: extra, Shift: shift, Thin: true}, h.LUN{LUN: 1, Blocks: 4}))
	defer w.End()
	i := w.Session(0, 0)
	if i == nil {
		k.Fail("no-session", "cannot log in")
		return
	}
	init := h.Fill(nbi<<shift+extra, 0x77)
	w.SetMedium(0, 0, init)
	other := h.Fill(4*512, 0x66)
	w.SetMedium(0, 1, other)
	var cdb, out []byte
	desc := fmt.Sprintf("%s lba=%d n=%d edtl=%d of %d blocks of %d", cmd.Name, lba, n, edtl, nb, bs)
	if cmd.kind == "unmap" {
		if v != 0 {
			return
		}
		cdb, out = h.Unmap([2]uint64{lba, n})
		edtl = uint64(len(out))
	} else {
		cdb = cmd.CDB(cmd.b1, lba, n)
		if hasOut && edtl > 0 {
			out = h.Fill(int(edtl), 0x99)
			if cmd.kind == "verify1" && lba < nb {
				copy(out, init[lba*bs:]) // matching data
			}
		}
	}
	if !hasOut && !hasIn {
		edtl = 0
	}
	r := i.Exec(0, cdb, int(edtl), hasIn && edtl > 0, out)
	k.Op(1)
	after := w.Medium(0, 0)
	k.State(fmt.Sprintf("%s %v %d %x", cmd.kind, r.Got, r.Status, hash(string(after))))
	k.Logf("%s -> %v", desc, r)
	if k.crashes(w, "crash "+cmd.Name) {
		return
	}
	free := cmd.kind == "unmap" && n == 0 // an empty descriptor asks for nothing: no rule on its address
	if m := w.Stores["0/0"]; m != nil && len(m.OOB) > 0 && !free {
		k.Fail("store-oob "+cmd.Name, "%s: %s", desc, m.OOB[0])
	}
	if !bytes.Equal(w.Medium(0, 1), other) {
		k.Fail("other-lun "+cmd.Name, "%s changed another logical unit", desc)
	}
	inRange := lba <= nb && n <= nb-lba
	if free {
		if !bytes.Equal(after, init) {
			k.Fail("medium-changed "+cmd.Name, "%s changed the medium to %s", desc, blocks(after, shift))
		}
		return
	}
	if !inRange {
		if !r.Check(5, 0x2100) {
			k.Fail("out-of-range "+cmd.Name, "%s: %v, want ILLEGAL REQUEST / LBA OUT OF RANGE", desc, r)
		}
		if len(r.Data) != 0 {
			k.Fail("data-on-refusal "+cmd.Name, "%s: %v", desc, r)
		}
		if !bytes.Equal(after, init) {
			k.Fail("medium-changed "+cmd.Name, "%s changed the medium to %s", desc, blocks(after, shift))
		}
		return
	}
	lo, hi := lba*bs, (lba+n)*bs
	if cmd.kind == "same" && n == 0 {
		hi = nb * bs // zero blocks stands for all up to the last
	}
	if cmd.kind != "write" && cmd.kind != "same" && cmd.kind != "orwrite" && cmd.kind != "unmap" {
		lo, hi = 0, 0
	}
	if !bytes.Equal(after[:lo], init[:lo]) || !bytes.Equal(after[hi:], init[hi:]) || len(after) != len(init) {
		k.Fail("containment "+cmd.Name, "%s changed blocks outside the addressed range: %s", desc, blocks(after, shift))
	}
	if hasIn && uint64(len(r.Data)) > edtl {
		k.Fail("too-much-data "+cmd.Name, "%s: %v", desc, r)
	}
	// complete requests inside the medium succeed
	if lba < nb && (v == 0 && edtl == exact || cmd.kind == "unmap" || (!hasIn && !hasOut)) && cmd.kind != "orwrite" && !(cmd.kind == "verify1" && n == 0) {
		if !r.Good() {
			k.Fail("refused "+cmd.Name, "%s: %v", desc, r)
		}
	}
	if hasIn && r.Good() && len(r.Data) > 0 && n > 0 {
		m := min(len(r.Data), int(n*bs))
		if !bytes.Equal(r.Data[:m], init[lba*bs:lba*bs+uint64(m)]) {
			k.Fail("wrong-data "+cmd.Name, "%s: %v", desc, r)
		}
		for _, x := range r.Data[m:] {
			if x != 0 {
				k.Fail("leaked-data "+cmd.Name, "%s: data beyond the addressed range: %v", desc, r)
				break
			}
		}
	}
}
