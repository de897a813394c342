package checks

import (
	"fmt"
	"strings"

	"verifmc/h"
	"verifmc/shim"
)

func init() {
	reg("P04", "fault_enumeration",
		"every history of writes, FUA writes, WRITE SAME, ORWRITE and SYNCHRONIZE CACHE over a small medium up to the depth, from one or two sessions, on every kind of backing store; a crash at every point between two store operations, losing every subset of the block writes the store was not told to make durable; oracle: a block whose last value was acknowledged as durable holds it (or the value of a command issued later); a state is the set of possible contents at a crash point",
		p04, "a store keeps what it was told to sync; block writes are atomic; unsynced block writes may reach the medium or not, independently")
}

type devent struct {
	sync   bool
	lo, hi int64 // bytes
	data   []byte
}

func p04(c *Ctx) {
	rw := func(name string) h.RW {
		for _, l := range [][]h.RW{h.Writes, h.Syncs, h.WriteSames, {h.OrWrite}} {
			for _, r := range l {
				if r.Name == name {
					return r
				}
			}
		}
		panic(name)
	}
	op := func(name, kind string, b1 byte, lba, n uint64) stepOp {
		o := stepOp{blkcmd: blkcmd{rw(name), kind, b1}, lba: lba, n: n}
		return o
	}
	alpha := []stepOp{
		op("WRITE(10)", "write", 0, 0, 2), op("WRITE(6)", "write", 0, 1, 2), op("WRITE(16)", "write", 8, 0, 2), op("WRITE(10)", "write", 8, 1, 1),
		op("WRITE(12)", "write", 0x18, 0, 3), op("WRITE AND VERIFY(10)", "write", 0, 1, 1),
		op("SYNCHRONIZE CACHE(10)", "sync", 0, 0, 0), op("SYNCHRONIZE CACHE(16)", "sync", 0, 0, 2), op("SYNCHRONIZE CACHE(10)", "sync", 0, 1, 0), op("SYNCHRONIZE CACHE(16)", "sync", 0, 1, 1), op("SYNCHRONIZE CACHE(10)", "sync", 0, 2, 1),
		op("WRITE SAME(10)", "same", 0, 1, 2), op("ORWRITE(16)", "orwrite", 8, 1, 1),
	}
	kinds := []string{"vmem", "RemBs", "file"}
	for _, kind := range kinds {
		depth := 3
		if c.Thorough() {
			depth = 4
		}
		var rec func(h []int)
		rec = func(hist []int) {
			if len(hist) > 0 {
				for ses := 0; ses < 1<<len(hist); ses++ {
					if ses&1 != 0 || (!c.Thorough() && ses != 0 && ses != 1<<(len(hist)-1)) {
						continue // symmetric; and the last operation from the other session is the interesting case
					}
					id := kind + strings.ReplaceAll(fmt.Sprint(hist), " ", ".") + fmt.Sprintf("s%d", ses)
					hist := append([]int{}, hist...)
					c.Case(id, func(k *Case) { p04case(k, kind, alpha, hist, ses) })
				}
			}
			if len(hist) < depth {
				for a := range alpha {
					rec(append(hist, a))
				}
			}
		}
		rec(nil)
	}
}

func p04case(k *Case, kind string, alpha []stepOp, hist []int, ses int) {
	const nb, shift, bs = 3, 9, 512
	w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Kind: kind, Blocks: nb}))
	defer w.End()
	s := []*h.Ini{w.Session(0, 0), w.Session(1, 0)}
	if s[0] == nil || s[1] == nil {
		k.Fail("no-session", "cannot log in")
		return
	}
	var log []devent
	cur := s[0]
	var curITT uint32
	acked := -1 // events before the status of the current command became visible
	on := func(e devent) {
		if acked < 0 && cur.Answered(curITT) {
			acked = len(log)
		}
		log = append(log, e)
	}
	switch kind {
	case "file":
		f := w.FileOf(0, 0)
		shim.SetFS(func(o shim.FSOp) error {
			if o.Path != f {
				return nil
			}
			switch o.Kind {
			case "write":
				on(devent{false, o.Off, o.Off + o.Len, append([]byte{}, o.Data...)})
			case "sync":
				on(devent{true, 0, nb * bs, nil})
			}
			return nil
		})
		defer shim.SetFS(nil)
	default:
		w.Stores["0/0"].Fault = func(o h.StoreOp) h.FaultKind {
			switch o.Kind {
			case "write":
				on(devent{false, o.Off, o.Off + o.Len, append([]byte{}, o.Data...)})
			case "sync":
				if kind == "RemBs" {
					on(devent{true, 0, nb * bs, nil})
				} else {
					on(devent{true, o.Off, o.Off + o.Len, nil})
				}
			}
			return h.FaultNone
		}
	}
	model := make([]byte, nb*bs)
	type set map[string]bool
	blk := func(b []byte, i int) string { return string(b[i*bs : (i+1)*bs]) }
	promise := make([]set, nb) // nil: nothing promised
	maybe := make([]set, nb)   // what a crash may leave
	latest := append([]byte{}, model...)
	for b := range maybe {
		maybe[b] = set{blk(model, b): true}
	}
	done := 0
	check := func(when string) bool {
		st := ""
		for b := range maybe {
			st += fmt.Sprint(len(maybe[b]), promise[b] != nil, ";")
			if promise[b] == nil {
				continue
			}
			for v := range maybe[b] {
				if !promise[b][v] {
					k.Fail("lost "+when, "%s: after a crash block %d may hold %.11q, but was acknowledged as durable with %s", strings.Join(k.log, "; "), b, v, blocks([]byte(anyKey(promise[b])), shift))
					return false
				}
			}
		}
		k.State(kind + st + when)
		return true
	}
	apply := func(upto int, when string) bool {
		for ; done < upto; done++ {
			e := log[done]
			for b := 0; b < nb; b++ {
				lo, hi := int64(b*bs), int64((b+1)*bs)
				if e.hi <= lo || e.lo >= hi {
					continue
				}
				if e.sync {
					if e.lo <= lo && e.hi >= hi {
						maybe[b] = set{blk(latest, b): true}
					}
				} else {
					for x := max(lo, e.lo); x < min(hi, e.hi); x++ {
						latest[x] = e.data[x-e.lo]
					}
					maybe[b][blk(latest, b)] = true
				}
			}
			if !check("during " + when) {
				return false
			}
		}
		return true
	}
	for n, a := range hist {
		o := alpha[a]
		o.tag = byte(0x20 + n)
		cur = s[ses>>n&1]
		curITT, acked = cur.NextITT, -1
		r, want := o.exec(cur, 0, model, shift)
		k.Op(1)
		k.Logf("%v", o)
		if k.crashes(w, "crash "+o.Name) {
			return
		}
		if !r.Good() || r.Problem != "" {
			k.Fail("refused "+o.Name, "%v: %v", o, r)
			return
		}
		if acked < 0 {
			acked = len(log)
		}
		// from its issue on, the values the command writes may appear
		if want != nil {
			copy(model[o.lba*bs:], want)
			for b := o.lba; b < o.lba+o.n; b++ {
				if promise[b] != nil {
					p := set{}
					for v := range promise[b] {
						p[v] = true
					}
					p[blk(model, int(b))] = true
					promise[b] = p
				}
			}
		}
		if !apply(acked, o.Name) {
			return
		}
		lo, hi := o.lba, o.lba+o.n
		durable := o.kind == "sync" || o.b1&8 != 0
		if o.kind == "sync" && o.n == 0 {
			hi = nb
		}
		if durable {
			for b := lo; b < hi; b++ {
				promise[b] = set{blk(model, int(b)): true}
			}
		}
		if !check("after "+o.Name) || !apply(len(log), "the time after "+o.Name) {
			return
		}
	}
	// without a crash the medium is what was written
	d := &disk{model, shift}
	checkMedium(k, w, 0, 0, d, "at the end")
}

func anyKey(m map[string]bool) string {
	for k := range m {
		return k
	}
	return ""
}
