package checks

import (
	"fmt"
	"sort"
	"strings"

	"verifmc/h"
)

func init() {
	reg("P15", "model_checking",
		"every configuration of up to three targets x portal group layouts (one or two groups, one or two portals each, none, shared portals) x cluster address x session type x SendTargets value (All, each name, prefix, other case, unknown, empty, absent) x receive limit of the initiator x map orders; long lists; then a login to every target through every portal; oracle: the configuration; a state is (configuration, request, answer)",
		p15)
}

// p15layout is the portal groups of one target.
type p15layout map[uint16][]string

func p15layouts() []p15layout {
	a, b, cc := "127.0.0.1:3260", "127.0.0.2:3260", "10.1.2.3:3260"
	return []p15layout{
		{1: {a}},
		{1: {a, b}},
		{1: {a}, 2: {b}},
		{7: {b}},
		{300: {cc}, 2: {a, b}},
		{1: {}},
	}
}

// sendTargets runs the whole exchange of a Text request and returns the answer.
func sendTargets(i *h.Ini, text string, limit int) (string, string) {
	data := ""
	ttt := uint32(0xffffffff)
	itt := i.ITT()
	for n := 0; ; n++ {
		p := &h.PDU{}
		p.B[0], p.B[1] = h.OpText, 0x80
		p.Put32(16, itt).Put32(20, ttt).Put32(24, i.CmdSN).Put32(28, i.ExpStat)
		i.CmdSN++
		if n == 0 {
			p.Data = []byte(text)
		}
		ps := i.Do(p)
		if len(ps) != 1 || ps[0].ITT() != itt {
			return "", fmt.Sprintf("answer %v", ps)
		}
		q := ps[0]
		if q.Op() == h.OpReject {
			return "", "reject"
		}
		if q.Op() != h.OpTextR {
			return "", fmt.Sprintf("answer %v", ps)
		}
		if len(q.Data) > limit {
			return "", fmt.Sprintf("a data segment of %d bytes, the initiator takes %d", len(q.Data), limit)
		}
		data += string(q.Data)
		final, cont := q.B[1]&0x80 != 0, q.B[1]&0x40 != 0
		if final == cont || final != (q.TTT() == 0xffffffff) {
			return "", "flags: " + q.String()
		}
		if final {
			return data, ""
		}
		ttt = q.TTT()
		if n > 2000 {
			return "", "no end"
		}
	}
}

// p15parse groups an answer by target.
func p15parse(data string) (map[string][]string, string) {
	got := map[string][]string{}
	cur := ""
	if data == "" {
		return got, ""
	}
	if !strings.HasSuffix(data, "\x00") {
		return nil, "not terminated"
	}
	for _, kv := range strings.Split(strings.TrimSuffix(data, "\x00"), "\x00") {
		eq := strings.IndexByte(kv, '=')
		if eq < 0 {
			return nil, fmt.Sprintf("record %q", kv)
		}
		k, v := kv[:eq], kv[eq+1:]
		switch k {
		case "TargetName":
			if _, dup := got[v]; dup {
				return nil, "target " + v + " twice"
			}
			cur = v
			got[v] = []string{}
		case "TargetAddress":
			if cur == "" {
				return nil, "an address before any target"
			}
			got[cur] = append(got[cur], v)
		default:
			return nil, fmt.Sprintf("key %q", k)
		}
	}
	return got, ""
}

func p15show(m map[string][]string) string {
	var ks []string
	for k := range m {
		v := append([]string{}, m[k]...)
		sort.Strings(v)
		ks = append(ks, k+"->"+strings.Join(v, " "))
	}
	sort.Strings(ks)
	return strings.Join(ks, "; ")
}

func p15(c *Ctx) {
	lay := p15layouts()
	var confs [][]int
	confs = append(confs, []int{})
	for a := range lay {
		confs = append(confs, []int{a})
		for b := range lay {
			confs = append(confs, []int{a, b})
			for d := range lay {
				if c.Thorough() || (a+b+d)%3 == 0 {
					confs = append(confs, []int{a, b, d})
				}
			}
		}
	}
	p15names(c)
	for _, conf := range confs {
		for _, cluster := range []string{"", "10.9.9.9:3260"} {
			for order := 0; order < Pick(c, 2, 4); order++ {
				c.Case(fmt.Sprintf("conf%v/%s/%d", conf, cluster, order), func(k *Case) {
					var cfg h.Cfg
					names := []string{"disk", "disk2", "Disk.x"}
					for n, l := range conf {
						cfg.Targets = append(cfg.Targets, h.Target{Name: names[n], Portals: lay[l], LUNs: []h.LUN{{LUN: 0, Blocks: 2 + n}}})
					}
					cfg.Order, cfg.Cluster = order+1, cluster
					w := h.NewWorld(cfg)
					defer w.End()
					full := map[string][]string{}
					for n, l := range conf {
						full[w.Names[n]] = []string{}
						for tag, ps := range lay[l] {
							if cluster != "" {
								full[w.Names[n]] = append(full[w.Names[n]], fmt.Sprintf("%s,%d", cluster, tag))
								continue
							}
							for _, p := range ps {
								full[w.Names[n]] = append(full[w.Names[n]], fmt.Sprintf("%s,%d", p, tag))
							}
						}
					}
					one := func(n string) map[string][]string {
						if v, ok := full[n]; ok {
							return map[string][]string{n: v}
						}
						return map[string][]string{}
					}
					ask := func(kind string, i *h.Ini, val, key string, want map[string][]string, limit int) bool {
						k.Op(1)
						text := "SendTargets=" + val + "\x00"
						if key != "" {
							text = key
						}
						data, e := sendTargets(i, text, limit)
						if e != "" {
							k.Fail("answer "+kind, "%s, %q: %s", kind, text, e)
							return false
						}
						got, e := p15parse(data)
						if e != "" {
							k.Fail("format "+kind, "%s, %q: %s", kind, text, e)
							return false
						}
						if want != nil && p15show(got) != p15show(want) {
							k.Fail("list "+kind, "%s, %q: %s; configured: %s", kind, text, p15show(got), p15show(want))
							return false
						}
						k.State(fmt.Sprint(conf, cluster, text, p15show(got)))
						return true
					}
					asks := func(kind string, i *h.Ini, own string, limit int) bool {
						for _, n := range w.Names {
							if !ask(kind, i, n, "", one(n), limit) || !ask(kind, i, n[:len(n)-1], "", one(n[:len(n)-1]), limit) {
								return false
							}
							if !ask(kind, i, n+"x", "", one(n+"x"), limit) {
								return false
							}
						}
						if !ask(kind, i, "iqn.2020-01.verif:nobody", "", one(""), limit) || !ask(kind, i, "", "X-com.verif=1\x00", one(""), limit) {
							return false
						}
						if own == "" {
							return ask(kind, i, "All", "", full, limit) && ask(kind, i, "All", "", full, limit)
						}
						return ask(kind, i, "", "", one(own), limit)
					}
					disc := w.Dial("10.0.0.1:40000", h.Portal)
					if disc == nil || !disc.LoginDiscovery() {
						k.Fail("discovery-login", "cannot log in for discovery")
						return
					}
					if !asks("discovery", disc, "", 8192) {
						return
					}
					small := w.Dial("10.0.0.1:40000", h.Portal)
					if small == nil {
						k.Fail("discovery-login", "cannot connect")
						return
					}
					ps := small.Do(h.LoginPDU(small.ISID, 0, 0, 1, 3, true, small.ITT(), small.CmdSN, small.ExpStat, h.KV("InitiatorName", "iqn.2020-01.verif:small", "SessionType", "Discovery", "MaxRecvDataSegmentLength", "512")))
					if len(ps) != 1 || ps[0].Op() != h.OpLoginR || ps[0].B[36] != 0 {
						k.Fail("discovery-login", "%v", ps)
						return
					}
					if !asks("discovery, 512 byte limit", small, "", 512) {
						return
					}
					// every target through every portal
					sess := 0
					for n, l := range conf {
						for _, portal := range []string{"127.0.0.1:3260", "127.0.0.2:3260", "10.1.2.3:3260", "127.0.0.3:3260"} {
							tag, listed := uint16(0), false
							for g, ps := range lay[l] {
								for _, p := range ps {
									if p == portal {
										tag, listed = g, true
									}
								}
							}
							i := w.Dial("10.0.0.2:40000", portal)
							if i == nil {
								k.Fail("dial", "cannot connect to %s", portal)
								return
							}
							i.ISID += uint64(100 + sess)
							sess++
							ok := i.LoginName(w.Names[n])
							k.Op(1)
							if ok != listed {
								k.Fail("login", "target %s through %s (configured there: %v): login %v", w.Names[n], portal, listed, ok)
								return
							}
							if !ok {
								continue
							}
							_, kv := h.ParseKV(i.All[0].Data)
							if got := kv["TargetPortalGroupTag"]; got != fmt.Sprint(tag) {
								k.Fail("tpgt", "target %s through %s is in portal group %d, login says %q", w.Names[n], portal, tag, got)
								return
							}
							if r := i.Exec(0, h.ReadCap10(), 8, true, nil); !r.Good() || len(r.Data) != 8 || int(r.Data[3]) != 1+n {
								k.Fail("other-target", "target %s through %s: READ CAPACITY %v", w.Names[n], portal, r)
								return
							}
							if !asks("normal session", i, w.Names[n], 8192) {
								return
							}
							if n == 0 || c.Thorough() {
								i.Close()
							}
						}
					}
					// discovery again, with sessions open
					if !ask("discovery", disc, "All", "", full, 8192) {
						return
					}
					k.crashes(w, "crash")
				})
			}
		}
	}
	// long lists
	for _, n := range Pick(c, []int{4, 40, 130}, []int{4, 9, 40, 130, 400}) {
		for _, limit := range []int{512, 513, 1000, 4096, 8192, 65536} {
			for order := 0; order < 2; order++ {
				c.Case(fmt.Sprintf("long/%d/%d/%d", n, limit, order), func(k *Case) {
					var cfg h.Cfg
					for t := 0; t < n; t++ {
						cfg.Targets = append(cfg.Targets, h.Target{Name: fmt.Sprintf("long-name-of-target-%d", t), Portals: map[uint16][]string{1: {h.Portal}, 2: {"127.0.0.2:3260"}}})
					}
					cfg.Order = order + 1
					w := h.NewWorld(cfg)
					defer w.End()
					i := w.Dial("10.0.0.1:40000", h.Portal)
					ps := i.Do(h.LoginPDU(i.ISID, 0, 0, 1, 3, true, i.ITT(), i.CmdSN, i.ExpStat, h.KV("InitiatorName", "iqn.2020-01.verif:long", "SessionType", "Discovery", "MaxRecvDataSegmentLength", fmt.Sprint(limit))))
					if len(ps) != 1 || ps[0].Op() != h.OpLoginR || ps[0].B[36] != 0 {
						k.Fail("discovery-login", "%v", ps)
						return
					}
					want := map[string][]string{}
					for _, t := range w.Names {
						want[t] = []string{h.Portal + ",1", "127.0.0.2:3260,2"}
					}
					for r := 0; r < 2; r++ {
						data, e := sendTargets(i, "SendTargets=All\x00", limit)
						got, e2 := p15parse(data)
						k.Op(1)
						if e != "" || e2 != "" || p15show(got) != p15show(want) {
							k.Fail("long", "%d targets, limit %d: %s %s: %d targets listed", n, limit, e, e2, len(got))
							return
						}
						// a request in between forgets the rest
						if _, e := sendTargets(i, "SendTargets="+w.Names[0]+"\x00", limit); e != "" {
							k.Fail("long", "%s", e)
							return
						}
					}
					k.State(fmt.Sprint(n, limit))
					k.crashes(w, "crash")
				})
			}
		}
	}
}

// p15names asks for everything close to a name, over sessions of all kinds of initiator port.
func p15names(c *Ctx) {
	for order := 1; order <= Pick(c, 3, 6); order++ {
		for _, isid := range []uint64{0, 1, 0x80_0000_000000, 0xffff_ffff_ffff} {
			c.Case(fmt.Sprintf("names/%d/%x", order, isid), func(k *Case) {
				cfg := h.Cfg{Order: order}
				for _, n := range []string{"disk", "disk2", "disk:sub.lun", "d"} {
					cfg.Targets = append(cfg.Targets, h.Target{Name: n, LUNs: []h.LUN{{LUN: 0, Blocks: 2}}})
				}
				w := h.NewWorld(cfg)
				defer w.End()
				ask := func(i *h.Ini, val string, want string) bool {
					k.Op(1)
					data, e := sendTargets(i, "SendTargets="+val+"\x00", 8192)
					got, e2 := p15parse(data)
					if e+e2 != "" {
						k.Fail("near-format", "SendTargets=%s: %s%s", val, e, e2)
						return false
					}
					if len(got) > 1 || len(got) == 1 && got[want] == nil || want != "" && len(got) != 1 {
						k.Fail("near", "SendTargets=%s (ISID %x): %s, want %q", val, isid, p15show(got), want)
						return false
					}
					return true
				}
				all := map[string]bool{}
				for _, n := range w.Names {
					all[n] = true
				}
				near := func(i *h.Ini, n string) bool {
					ok := ask(i, n, n)
					try := func(v string) {
						if ok && v != "" && v != "All" {
							want := ""
							if all[v] {
								want = v
							}
							ok = ask(i, v, want)
						}
					}
					for x := range n {
						try(n[:x])
						try(n[x:])
						try(n[:x] + n[x+1:])
						for bit := 0; bit < 7; bit++ {
							if b := n[x] ^ 1<<bit; b > 32 && b < 127 {
								try(n[:x] + string(rune(b)) + n[x+1:])
							}
						}
					}
					try(n + n)
					try(n + ".")
					try("*")
					try("all")
					try("ALL")
					return ok
				}
				disc := w.Dial("10.0.0.1:40000", h.Portal)
				disc.ISID = isid
				if !disc.LoginDiscovery() {
					k.Fail("discovery-login", "ISID %x", isid)
					return
				}
				for _, n := range w.Names {
					if !near(disc, n) {
						return
					}
				}
				for t, n := range w.Names {
					i := w.Dial("10.0.0.1:40000", h.Portal)
					i.ISID = isid
					if !i.Login(t) {
						k.Fail("login", "ISID %x", isid)
						return
					}
					if !ask(i, "", n) || !near(i, n) {
						return
					}
				}
				k.State(fmt.Sprint(order, isid))
			})
		}
	}
}
