package checks

import (
	"bytes"
	"fmt"
	"syscall"

	"github.com/gostor/gotgt/pkg/scsi"
	"verifmc/h"
	"verifmc/shim"
)

func init() {
	reg("P03", "fault_enumeration",
		"every block command (with and without FUA and DPO) on every kind of backing store x a fault at the k-th call it makes on the store, for every k (an error, a short count, a closed file, a full file) x every following command; oracle: the command must not report GOOD, blocks outside its range keep their content, and the following command behaves as on a healthy unit; a state is (command, fault position, outcome, medium)",
		p03, "an end-of-file answer of a store is not a fault (it reads as zeros)", "a failing read-ahead hint (DPO) is not a fault of the command it accompanies")
}

// stepOp is a block command of the fault and durability checks.
type stepOp struct {
	blkcmd
	lba, n uint64
	tag    byte
}

func (o stepOp) String() string { return fmt.Sprintf("%s b1=%02x %d+%d", o.Name, o.b1, o.lba, o.n) }
func (o stepOp) writes() bool {
	return o.kind == "write" || o.kind == "same" || o.kind == "orwrite" || o.kind == "unmap"
}

// exec runs the operation and returns its outcome and the bytes a success leaves in the range (nil: unchanged).
func (o stepOp) exec(i *h.Ini, lun uint64, before []byte, shift uint) (*h.Result, []byte) {
	bs := uint64(1) << shift
	old := before[o.lba*bs : (o.lba+o.n)*bs]
	var cdb, out, want []byte
	edtl := 0
	rd := false
	switch o.kind {
	case "read":
		cdb, edtl, rd = o.CDB(o.b1, o.lba, o.n), int(o.n*bs), true
	case "write":
		out = h.Fill(int(o.n*bs), o.tag)
		cdb, edtl, want = o.CDB(o.b1, o.lba, o.n), len(out), out
	case "same":
		out = h.Fill(int(bs), o.tag)
		cdb, edtl, want = o.CDB(o.b1, o.lba, o.n), len(out), bytes.Repeat(out, int(o.n))
	case "orwrite":
		out = h.Fill(int(o.n*bs), o.tag)
		want = append([]byte{}, out...)
		for j := range want {
			want[j] |= old[j]
		}
		cdb, edtl = o.CDB(o.b1, o.lba, o.n), len(out)
	case "verify1":
		out = append([]byte{}, old...)
		cdb, edtl = o.CDB(o.b1, o.lba, o.n), len(out)
	case "unmap":
		cdb, out = h.Unmap([2]uint64{o.lba, o.n})
		if o.Name == "UNMAP by block" {
			ds := [][2]uint64{}
			for j := uint64(0); j < o.n; j++ {
				ds = append(ds, [2]uint64{o.lba + j, 1})
			}
			cdb, out = h.Unmap(ds...)
		}
		edtl, want = len(out), make([]byte, o.n*bs)
	default: // verify0 sync prefetch
		cdb = o.CDB(o.b1, o.lba, o.n)
	}
	return i.Exec(lun, cdb, edtl, rd, out), want
}

func stepOps(c *Ctx) (l []stepOp) {
	for _, b := range blkcmds() {
		b1s := []byte{b.b1}
		if b.Size > 6 && (b.kind == "read" || b.kind == "write") {
			b1s = []byte{0, 0x08, 0x10, 0x18}
		}
		if b.kind == "orwrite" {
			b1s = []byte{0, 0x08}
		}
		if b.kind == "verify1" {
			b1s = []byte{2, 0x12}
		}
		for _, b1 := range b1s {
			o := stepOp{blkcmd: b, lba: 2, n: 3, tag: 0xc3}
			o.b1 = b1
			l = append(l, o)
			if b.kind == "unmap" {
				o.Name = "UNMAP by block"
				l = append(l, o)
			}
		}
	}
	return
}

func p03(c *Ctx) {
	kinds := []string{"vmem", "RemBs", "file"}
	ops := stepOps(c)
	var follow []stepOp
	for _, o := range ops {
		if o.b1 == 0 || o.b1 == 2 {
			o.lba, o.n, o.tag = 3, 2, 0x5a
			follow = append(follow, o)
		}
	}
	for _, kind := range kinds {
		faults := []string{"err"}
		switch kind {
		case "RemBs":
			faults = []string{"err", "short"}
		case "file":
			faults = []string{"err", "closed", "full"}
		}
		for oi, o := range ops {
			for _, f := range faults {
				for kth := 0; kth < 6; kth++ {
					for fi := -1; fi < len(follow); fi++ {
						if fi >= 0 && (f == "closed" || !c.Thorough() && (fi+oi+kth)%3 != 0) {
							continue
						}
						id := fmt.Sprintf("%s/%d/%s/k%d/f%d", kind, oi, f, kth, fi)
						c.Case(id, func(k *Case) {
							var fo *stepOp
							if fi >= 0 {
								fo = &follow[fi]
							}
							p03case(k, kind, o, f, kth, fo, 8)
						})
					}
					if f == "closed" || f == "full" {
						break
					}
				}
			}
		}
		// a WRITE SAME long enough to be written in pieces
		for _, same := range h.WriteSames {
			for kth := 0; kth < 4; kth++ {
				for _, f := range faults {
					c.Case(fmt.Sprintf("long/%s/%s/%s/k%d", kind, same.Name, f, kth), func(k *Case) {
						p03case(k, kind, stepOp{blkcmd: blkcmd{same, "same", 0}, lba: 2, n: 700, tag: 0xc3}, f, kth, nil, 720)
					})
				}
			}
		}
	}
}

func p03case(k *Case, kind string, o stepOp, fault string, kth int, follow *stepOp, nb int) {
	const shift = 9
	w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Kind: kind, Blocks: nb, Thin: true}))
	defer w.End()
	i := w.Session(0, 0)
	j := w.Session(1, 0)
	if i == nil || j == nil {
		k.Fail("no-session", "cannot log in")
		return
	}
	init := h.Fill(nb<<shift, 0x11)
	w.SetMedium(0, 0, init)
	hit := ""
	switch fault {
	case "err":
		n := 0
		if kind == "file" {
			shim.SetFS(func(op shim.FSOp) error {
				if n++; n-1 == kth {
					hit = op.Kind
					return syscall.EIO
				}
				return nil
			})
			defer shim.SetFS(nil)
			break
		}
		w.Stores["0/0"].Fault = func(op h.StoreOp) h.FaultKind {
			if n++; n-1 == kth {
				hit = op.Kind
				return h.FaultErr
			}
			return h.FaultNone
		}
	case "short":
		n := 0
		w.Remote["0/0"].Short = func(what string, l int) int {
			if n++; n-1 == kth && l > 0 {
				hit = what
				return l - 1 - (l-1)/2
			}
			return l
		}
	case "closed":
		lu := scsi.GetLU(w.Names[0], 0)
		lu.Storage.Close(lu)
		hit = "any"
	case "full":
		var old syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
		lim := old
		lim.Cur = 3<<shift + 100 // the middle of the second block of the range
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
		defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
		hit = "write"
	}
	r, want := o.exec(i, 0, init, shift)
	k.Op(1)
	switch fault {
	case "err":
		shim.SetFS(nil)
		if kind != "file" {
			w.Stores["0/0"].Fault = nil
		}
	case "short":
		w.Remote["0/0"].Short = nil
	case "full":
		lim := syscall.Rlimit{}
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim)
		lim.Cur = lim.Max
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
		if !o.writes() || o.kind == "unmap" {
			hit = ""
		}
	case "closed":
		switch o.kind {
		case "verify0", "unmap", "prefetch": // not bound to touch the store
			hit = ""
		}
	}
	desc := fmt.Sprintf("%v on %s, %s at store call %d (%s)", o, kind, fault, kth, hit)
	k.Logf("%s -> %v", desc, r)
	after := w.Medium(0, 0)
	k.State(fmt.Sprintf("%v %s %d %d %v %x", o, fault, kth, r.Status, r.Got, hash(string(after))))
	if k.crashes(w, "crash "+o.Name) {
		return
	}
	key := fmt.Sprintf("%s %s %s", o.Name, fault, hit)
	if !r.Got {
		k.Fail("no-status "+key, "%s: %v", desc, r)
		return
	}
	if r.Problem != "" {
		k.Fail("protocol "+key, "%s: %v", desc, r)
	}
	lo, hi := int(o.lba<<shift), int((o.lba+o.n)<<shift)
	hint := hit == "advise" && o.kind != "prefetch"
	switch {
	case hit == "" || hint:
		if !r.Good() && fault != "closed" {
			k.Fail("refused "+key, "%s: %v", desc, r)
		}
		if o.kind == "read" && r.Good() && !bytes.Equal(r.Data, init[lo:hi]) {
			k.Fail("wrong-data "+key, "%s: %v", desc, r)
		}
		if want != nil && r.Good() && !bytes.Equal(after[lo:hi], want) && !(o.kind == "unmap" && kind != "vmem") {
			k.Fail("lost-write "+key, "%s: reported GOOD but the medium is %s", desc, blocks(after, shift))
		}
	default:
		if r.Good() {
			k.Fail("good-on-fault "+key, "%s: the command reported GOOD", desc)
		} else if !(r.Status == 2 && (r.Key() == 3 || r.Key() == 4)) {
			k.Fail("sense "+key, "%s: %v, want CHECK CONDITION with MEDIUM ERROR or HARDWARE ERROR", desc, r)
		}
		if len(r.Data) > 0 {
			k.Fail("data-on-fault "+key, "%s: %v", desc, r)
		}
	}
	if len(after) != len(init) || !bytes.Equal(after[:lo], init[:lo]) || !bytes.Equal(after[hi:], init[hi:]) {
		k.Fail("outside "+key, "%s changed blocks outside its range: %s", desc, blocks(after, shift))
	}
	if !o.writes() && !bytes.Equal(after, init) {
		k.Fail("changed "+key, "%s changed the medium", desc)
	}
	if fault == "closed" {
		return
	}
	// the unit keeps serving, on the same session and on another
	if follow != nil {
		r, want := follow.exec(i, 0, after, shift)
		k.Op(1)
		if !r.Good() || r.Problem != "" {
			k.Fail("then-refused "+follow.Name, "after %s: %v: %v", desc, follow, r)
			return
		}
		lo, hi := int(follow.lba<<shift), int((follow.lba+follow.n)<<shift)
		if follow.kind == "read" && !bytes.Equal(r.Data, after[lo:hi]) {
			k.Fail("then-wrong "+follow.Name, "after %s: %v: %v", desc, follow, r)
		}
		if want != nil && (follow.kind != "unmap" || kind == "vmem") {
			copy(after[lo:hi], want)
		}
		if got := w.Medium(0, 0); !bytes.Equal(got, after) {
			k.Fail("then-medium "+follow.Name, "after %s: %v left %s, want %s", desc, follow, blocks(got, shift), blocks(after, shift))
		}
	}
	for n, s := range []*h.Ini{i, j} {
		r := s.Exec(0, h.C10(0x28, 0, 0, uint16(nb)), nb<<shift, true, nil)
		k.Op(1)
		if !r.Good() || !bytes.Equal(r.Data, after) {
			k.Fail("then-read", "after %s: a read of the whole medium on session %d: %v, medium %s", desc, n, r, blocks(after, shift))
		}
	}
}
